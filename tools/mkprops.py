#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the JSON is always valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=hook)))

TESTS = ("The five passing tests parse four fixed files and compare a handful of counts; "
         "they sample a few documents and never ")

prop('C01', 'Parsing conserves rows: every row becomes exactly one term, nothing is lost',
     "Parsing a document yields exactly one term for every row whose first cell is neither blank nor a '#' comment, in row order, "
     "carrying that row's name (trimmed, case-insensitive) and its trimmed second cell as value (none if blank), plus exactly one child property, "
     "holding the cell's trimmed text, for each non-blank further cell, in column order. Blank rows and comment rows contribute nothing, Section and Header rows contribute "
     "no ordinary term, and Include and Declare rows have no properties. No row or cell is lost, duplicated, merged or altered, whatever its characters, length, position or number.",
     ['inputs'], 'for every finite sequence of rows with string or numeric cells',
     TESTS + 'compare the terms with the rows they came from.',
     ['metatab/parser.py', 'metatab/terms.py', 'metatab/rowgen.py', 'metatab/doc.py'],
     [('row to term generation', 'parser.py generate_terms'), ('term interpretation', 'parser.py __iter__'), ('loading into the document', 'doc.py load_terms/add_term'), ('name/value trimming', 'terms.py Term.__init__, split_term')],
     ['terms yielded by the parser', 'terms listed by the document and their children'],
     [('terms', "the document's top-level terms", 'doc.py')])

prop('C02', 'Cells are named by the column headings in force, and headings never leak',
     "Each further cell of a row becomes a property named (lower-cased) by the heading over its column, as set by the section's Section row or by a later Header row of that section; "
     "a cell whose heading is blank or missing is named by its zero-based column number. Opening or resuming a section (whose first headings stay its own), including the root section and the section resumed after an included file ends, "
     "puts that section's own headings in force, and never another section's. "
     "A Header row also gives the name under which row values are reported until the next section starts, unless a declaration gives the term its own value name.",
     ['inputs'], 'for every arrangement of sections, headers, blank headings, rows wider or narrower than the headings, and section changes',
     TESTS + 'check which name each cell gets after headings change.',
     ['metatab/parser.py', 'metatab/terms.py'],
     [('parameter map', 'parser.py __iter__ (munge_param_map, root.header, root.section)'), ('section resumed after include', 'parser.py generate_terms')],
     ['names of the child terms', "terms' value names", "sections' property names"])

prop('C03', 'Rows nest under the right parent, and bad parents are rejected',
     "A row named Parent.Child becomes a child of the most recent earlier row named Parent (in any nesting position); a row named .Child becomes a child of the most recent row that was not itself written with a leading dot, "
     "exactly as if that row's name had been written out, and is a top-level term when no such row has come since the latest Section row, included file or declaration; the cells of a row are always children of that row's own term. "
     "Parent and child links always agree, and the nesting of later rows is unaffected by cells or comments. A row naming a parent that has not appeared is rejected with a parse error instead of being dropped or attached elsewhere.",
     ['inputs'], 'for every sequence of top-level, qualified and leading-dot rows, across section boundaries and nesting depths',
     TESTS + 'assert which term is the parent of which.',
     ['metatab/parser.py', 'metatab/terms.py'],
     [('last-term map and elided parents', 'parser.py __iter__'), ('add_child', 'terms.py Term.add_child')],
     ['parent and children of every term', 'exception raised for an unknown parent'])

prop('C04', 'Every top-level term is in exactly one section, the one it was written in',
     "After any parse, every top-level term belongs to exactly one section, that of the latest preceding Section row (the root section before any), matched case-insensitively; "
     "sections are kept in order of first appearance, and a section opened again, by name in any case or by loading more rows into the same document, keeps its earlier terms and collects the new ones after them. "
     "The document's list of top-level terms is exactly the union of its sections' terms (those of declarations aside), and a section opened without headings takes the headings declared for it.",
     ['inputs', 'histories'], 'for every document with repeated, empty, re-cased and interleaved sections and every sequence of loads into one document',
     TESTS + 'interleave, repeat or re-case sections.',
     ['metatab/doc.py', 'metatab/terms.py', 'metatab/parser.py'],
     [('section coalescing', 'doc.py add_section; parser.py generate_terms'), ('section membership', 'terms.py SectionTerm.add_term')],
     ['document sections and their terms', "document's top-level terms", "each term's section"])

prop('C05', 'CSV output reads back as the same document',
     "Reading back the CSV (or row) rendering of any document gives a document with the same sections (the root section first), section headings and top-level terms in the same order, and, recursively, the same children with the same names and values, "
     "same-named children keeping their order; rendering it again gives identical text. "
     "This holds for parsed and for programmatically built or edited documents, for every string value (including quotes, commas, line breaks and non-ASCII text; blanks around it and childless terms without a value aside), provided no term is nested inside a term of the same name.",
     ['inputs', 'histories'], 'for every document built by parsing or by the editing API',
     'The round-trip test is not among the passing tests, uses six files, and compares flattened dictionaries as sets, so loss or reordering of repeated children is invisible to it.',
     ['metatab/doc.py', 'metatab/terms.py'],
     [('row rendering', 'doc.py rows/as_csv; terms.py Term.rows, SectionTerm.rows, _args')],
     ['CSV text', 'term tree of the re-read document'])

prop('C06', 'Lines output reads back as the same document',
     "Reading back the Lines (text) rendering of any document whose values contain no line breaks gives a document with the same sections, headings, terms, children and values as the original, in the sense of the CSV round trip, "
     "and rendering it again gives identical text. Converting between CSV and Lines in either direction, any number of times, never changes the document; values may contain colons, hashes, pipes and any other single-line text.",
     ['inputs', 'histories'], 'for every document with single-line values, and every chain of format conversions',
     'The only Lines round-trip test fails here and covers six files with tame values.',
     ['metatab/doc.py', 'metatab/terms.py', 'metatab/rowgen.py'],
     [('lines rendering', 'terms.py SectionTerm.lines; doc.py lines/as_lines'), ('lines reader', 'rowgen.py TextRowGenerator')],
     ['Lines text', 'term tree of the re-read document'])

prop('C07', 'Dictionary conversion reflects the term tree and declared property types',
     "Converting a document, section or term to a dictionary gives one key per distinct child name: a child with children becomes a dictionary that also holds its value (when it has one) under its value name ('@value' when value-name replacement is off), and a childless one becomes its plain value. "
     "Repeated children follow the declared property type: 'scalar' keeps the last, 'sequence' always gives a list, 'sconcat' and 'bconcat' join plain values with a space or nothing, anything else gives a single item or, when repeated, a list, in document order. "
     "The whole-document dictionary covers the terms of all sections.",
     ['inputs', 'configurations'], 'for every term tree and every assignment of property types and value names',
     'No passing test checks a dictionary.',
     ['metatab/terms.py', 'metatab/doc.py'],
     [('dict conversion', 'terms.py _convert_to_dict, SectionTerm.as_dict, RootSectionTerm.as_dict; doc.py as_dict')],
     ['dictionaries returned for documents, sections and terms'])

prop('C08', 'Declarations govern how terms are interpreted',
     "Declaring a term in a declaration document, loaded by a Declare row (naming a file, a packaged declaration, or one that the document's resolver finds), passed when the document is created, or by a Declare row of another declaration, gives every later term of that name (in any case, written out or with a leading dot) its declared property type, value name and options, marks it valid, replaces a declared synonym by its target, "
     "and makes a term that inherits from another share that term's declared children in the same section and be found as a kind of it. "
     "Declared sections supply default headings; undeclared terms keep defaults and are marked not valid; the rows of a declaration document are never terms in the sections of the document that declares it, nor parents of its terms; and referring to an undeclared section, or inheriting without one, raises a declaration error.",
     ['inputs', 'configurations'], 'for every declaration document and every document that uses it',
     'Tests only load the stock declaration and print it.',
     ['metatab/parser.py', 'metatab/doc.py', 'metatab/util.py'],
     [('declaration handling', 'parser.py manage_declare_terms, add_declared_term, inherited_children, synonyms, super_terms'), ('declaration loading', 'doc.py load_declarations, load_terms; util.py declaration_path')],
     ['declared terms and sections of the document', 'attributes of parsed terms', 'finds by super term'])

prop('C09', 'Includes splice in place, nest, and cannot loop',
     "An Include row is kept as a term and is followed by exactly the terms of the included file, as if its rows stood there, with relative names resolved against the including file's directory at every depth; afterwards the interrupted section and its headings are in force again. "
     "A missing include, or a file that directly or indirectly includes itself, always ends promptly in an include error naming the file, never in endless work, silent omission or partial duplication; including the same file twice without a cycle is allowed.",
     ['inputs', 'fault_sequences'], 'for every finite set of files and every include graph over them, including cyclic and dangling ones',
     'The include test needs the network and fails; the error test is skipped.',
     ['metatab/parser.py'],
     [('include expansion', 'parser.py generate_terms, find_include_doc'), ('loop check', 'parser.py generate_terms')],
     ['terms of the including document', 'exceptions and their text'])

prop('C10', 'Searches return exactly the matching terms, in document order',
     "Finding terms by name returns each matching term exactly once and nothing else: names match case-insensitively, an unqualified name means a top-level term, '*' matches any parent or record name (a '*' parent or a non-root parent also searches children), a list of names matches any of them, and a declared super term also matches the terms declared to inherit from it directly. "
     "Value, section (one or several) and property filters restrict the result to exactly those satisfying them all; results for one name are in document order (top-level terms as the document lists them, others by section and depth first) and the same call gives the same answer in every run. "
     "First-match lookups return the first such result or the default.",
     ['inputs', 'histories'], 'for every document, edited or not, and every query',
     'Tests make four queries on one document.',
     ['metatab/doc.py', 'metatab/terms.py'],
     [('search', 'doc.py find, find_first, find_first_value, get, get_value; terms.py Term.find*, SectionTerm.find*, term_is')],
     ['results of find calls compared with an exhaustive scan'])

prop('C11', 'The document stays structurally consistent under any history of edits',
     "After any sequence of creating, adding, moving, taking over from other documents, removing and sorting terms, children and sections, every top-level term is listed once in the document and once in exactly one section, which it names as its own; every child is listed once under the parent it names, and shares its document and section. "
     "Each edit does exactly what it says and nothing else: what was removed is gone from every listing, search and rendering, what was added or moved appears once where it was put, sorting only reorders, getting, re-adding or re-opening an existing section or term (in any case; a new section is made under an unused name) never discards or alters it, and all other content, and the sections of the document that a term came from, are unchanged.",
     ['histories'], 'for every finite sequence of edit operations on every starting document',
     'No passing test edits a document.',
     ['metatab/doc.py', 'metatab/terms.py'],
     [('document edits', 'doc.py add_term, remove_term, add_section, new_section, get_or_new_section, sort_sections, __delitem__'), ('section and term edits', 'terms.py SectionTerm.*, Term.add_child/new_child/remove_child/get_or_new_child')],
     ['full structural snapshot after every operation'],
     hook='public editing methods are wrapped from the harness; no source hook')

prop('C12', 'Property access is coherent: what is set is what is read, by every route',
     "After setting a property of a term by item, or by attribute when it is a heading of the term's section and no name of the term's own interface, reading it back by item, attribute, value getter, first-match lookup, property dictionary or rendering gives that value, through any letter case of the name; setting it to None removes it; setting the value name sets the term's own value; "
     "other properties, terms and the term's value are unaffected, and setting an existing property never creates a second one. "
     "Absent properties read as the default, an absent common property (url, name, description, schema) reads as None by attribute, membership tests agree with the property dictionary, and the dictionary of all properties has an entry for every heading of the section; assigning any other attribute adds no property.",
     ['histories', 'inputs'], 'for every term and every sequence of property reads and writes',
     'The accessor test does not pass here and does one write.',
     ['metatab/terms.py'],
     [('accessors', 'terms.py Term.__getitem__, __setitem__, __getattr__, __setattr__, __contains__, get, get_value, props, arg_props, all_props, get_or_new_child')],
     ['values read through each accessor after each write'])

prop('C13', 'Reading never changes a document',
     "Rendering a document (CSV, Lines, rows, dictionary), searching it, iterating it, reading properties, converting it to a data package, or asking for its name under another version leaves the document exactly as it was, "
     "so any sequence of such calls, in any order and repeated any number of times, gives the same answers as each call made alone on a fresh copy; apart from asking for the name, this also holds for calls made in several threads at once.",
     ['histories'], 'for every document and every sequence of read-only calls',
     'No test repeats or interleaves read calls; test_versions shows the opposite and fails.',
     ['metatab/doc.py', 'metatab/terms.py', 'metatab/datapackage.py'],
     [('renderers and finders', 'doc.py as_csv, as_lines, as_dict, rows, lines, all_terms, find*, as_version; terms.py as_dict, rows, props')],
     ['structural snapshot before and after each call', 'answers of repeated calls'])

prop('C14', 'The dataset name is a deterministic, idempotent function of its parts',
     "Updating the name of a document that has a Dataset term in its root section, where all terms named here belong, sets Name to the non-empty parts origin, dataset, time, space, grain, variant, version, in that order, joined with '-', each lower-cased with its own dashes turned to underscores, spaces to dashes, and accents and other punctuation than dots and underscores removed; without a Dataset an existing name is kept and an empty one becomes the identifier. "
     "Updating twice changes nothing the second time, the reported changes say truthfully whether the name changed, no other term but the Version is altered, and an identifier is created only if missing and never changed afterwards.",
     ['inputs', 'histories'], 'for every combination and content of name parts and every sequence of updates',
     'The name test does not pass here and uses two files.',
     ['metatab/doc.py', 'metatab/util.py'],
     [('name generation', 'doc.py update_name, _generate_identity_name, ensure_identifier, cleanse; util.py slugify')],
     ['Name and Identifier values, update reports'])

prop('C15', 'Version arithmetic and semantic versions',
     "Asking for a document's name as another version gives the document's name with the version replaced by the given one, removed when None is given, or moved by N for '+N' and '-N' (by 1 for a bare sign) counted from the document's own unchanged version; for a semantic version only the patch part is replaced or moves. "
     "Version math on a version that is missing or not a whole number is refused with an error. A version with any of Major, Minor, Patch set renders as all three (and Build if present) joined by dots, otherwise the version value stands as written.",
     ['inputs', 'histories'], 'for every version form and every sequence of version requests',
     'test_versions fails, and test_doc cannot be imported.',
     ['metatab/doc.py'],
     [('version handling', 'doc.py as_version, update_version, _has_semver, _generate_identity_name')],
     ['names returned and Version terms before and after'])

prop('C16', 'Saving is faithful and never destroys what it cannot replace',
     "Saving a document to a .csv or .txt path writes exactly the document's rendering, in UTF-8, including the identifier and name the save itself ensures, so reading the file gives the document back and saving again without edits writes the same bytes; without a path it goes to the document's own file, or metadata.csv for a new document. "
     "Saving in one format to a path with another extension, or to a non-file location, is refused with an error, touches no file and leaves the document as it was; a save that fails because the document cannot be rendered or encoded leaves an existing file unchanged.",
     ['inputs', 'fault_sequences', 'histories'], 'for every document, target path and failure while producing the content',
     'No passing test writes a file.',
     ['metatab/doc.py'],
     [('writing', 'doc.py _write_path, _write, write_csv, write_lines, write')],
     ['bytes of the written files', 'files present before and after'])

prop('C17', 'The command line tool agrees with the library and does not clobber files',
     "For every readable document, the metatab command's CSV, Lines, JSON, YAML and pretty outputs are exactly the library's renderings of that document, whatever the locale for files that are written, the terms option prints the parsed terms in order, the find option prints the first matching value, the declaration option the declared terms and sections, and output written in place goes to the same base name with the format's extension, leaving all other files alone, the source included unless it has that very name. "
     "Creating a file writes a new document from the named template only when no file exists there, never changes an existing one, and says which file it was; failures (missing file, term not found) exit non-zero with a message and no traceback, success exits zero.",
     ['inputs', 'configurations'], 'for every document, output option and pre-existing file state',
     'No test runs the command line tool.',
     ['metatab/cli.py'],
     [('command line', 'cli.py metatab, new_metatab_file, make_metatab_file')],
     ['standard output, exit status and directory contents of the command'])

prop('C18', 'Documents in one process do not influence each other',
     "Parsing, declaring, editing or rendering one document never changes the content, declarations, headings or answers of another document, however many documents the process has handled and however operations on different documents are interleaved or run in different threads; "
     "the result for each is the same as if it had been processed alone in a fresh process.",
     ['histories', 'schedules'], 'for every interleaving of operations on several documents, including threads',
     'Tests handle one document at a time and never compare with an isolated run.',
     ['metatab/parser.py', 'metatab/doc.py', 'metatab/terms.py'],
     [('per-document state', 'parser.py TermParser.__init__, super_terms cache; doc.py MetatabDoc.__init__')],
     ['answers of each document compared with an isolated run'])

prop('C19', 'Registered term classes are used for exactly the terms they name',
     "While a term class is registered for a qualified name (any case, as a class or a dotted path), every term of that name, and of terms declared to inherit directly from it, is created as that class, whether parsed from a row that spells the name out, created as a section's term, or created as a child; all other terms keep the base class. "
     "A direct registration wins over an inherited one; unregistering restores the previous behaviour and unregistering an unknown name is harmless.",
     ['configurations', 'histories'], 'for every sequence of registrations and every document',
     'One test registers one class for one parsed root term.',
     ['metatab/parser.py', 'metatab/doc.py', 'metatab/util.py'],
     [('class lookup', 'parser.py register_term_class, unregister_term_class, get_term_class; doc.py get_term_class; util.py import_name_or_class')],
     ['types of terms in parsed and built documents'])

prop('C20', 'The Lines reader splits text into the rows it denotes',
     "A Lines text is read line by line: a line is split at its first colon into a term name and cells, cells are separated by pipes not preceded by a backslash (a backslash-pipe is a literal pipe), a line starting with '====' names a section, indentation is ignored, and comment lines are skipped. "
     "Every other line yields one row with exactly those cells, trimmed, so a Lines text and the equivalent table parse to equal documents, whether the text is given as a string, an open file, a path or a metatab URL of a .txt file.",
     ['inputs', 'configurations'], 'for every text and every way of supplying it',
     'Tests read six fixed texts.',
     ['metatab/rowgen.py'],
     [('lines reader', 'rowgen.py TextRowGenerator')],
     ['rows produced, documents parsed'])

prop('C21', 'Data package conversion covers exactly the described data files',
     "Converting a document to a data package gives the root terms plus one resource, in order, for each data file row of the resources section whose name, or else table, names a schema table, with its url, or else its value, as path, its name, and one field per column of that table in column order with name, title and description as given (and none where none is given) and the type translated (str, text, unicode to string; int to integer; float to number; others unchanged). "
     "Data files without a matching table are left out; a document with neither name nor identifier, or without a schema, is refused with a conversion error; the identifier serves as the name when there is none.",
     ['inputs'], 'for every document with resources and schema',
     'The data package tests are skipped.',
     ['metatab/datapackage.py'],
     [('conversion', 'datapackage.py convert_to_datapackage')],
     ['the dictionary returned'])

prop('C22', 'Terms know where they came from, and bad input is reported with its place',
     "Every parsed term reports the file it came from and the number of its row in that file, with column 1 for row terms and the cell's own column for property cells, also for terms from included files. "
     "Malformed input (a name with more than one dot, an unknown parent, a section without a name, a term named Root, an unresolvable include or declaration, a bad declaration) always ends the parse with one of the library's own errors rather than a silently incomplete document, and the error for an include or declaration names the offending file or term, that for an include also carrying the file and row of the row that asked for it.",
     ['inputs', 'fault_sequences'], 'for every document and every position and kind of malformed row',
     'The error test is skipped and no test looks at positions.',
     ['metatab/parser.py', 'metatab/terms.py', 'metatab/exc.py'],
     [('positions', 'parser.py generate_terms; terms.py Term.file_ref'), ('errors', 'parser.py errors_as_dict, exc.py')],
     ['row, column and file of terms', 'type and text of exceptions'])

prop('C23', 'Metatab URLs resolve to the metadata table of a package',
     "A metatab URL, or path opened as one, of a directory refers to metadata.csv in it; of a .csv, .txt or .ipynb file to that file; of a .zip archive to metadata.csv inside it; of an .xlsx workbook to its 'meta' sheet; reporting target file and format accordingly and keeping the directory, host and scheme as given. "
     "Opening a document through any such local reference gives the same document as reading the underlying table directly.",
     ['inputs', 'configurations'], 'for every local package layout and every spelling of its reference',
     'One test parses one URL and checks only its protocol.',
     ['metatab/appurl.py', 'metatab/doc.py', 'metatab/__init__.py'],
     [('url class', 'appurl.py MetatabUrl')],
     ['url parts', 'documents loaded through the url'])

prop('C24', 'Editing headings and cleaning up the schema never change the data',
     "Adding a heading to a section puts it once, in any letter case, after or before the others, and removing one takes away that heading in any case and is harmless if it is absent; blank headings are dropped. "
     "Cleaning up the schema leaves the Schema section with exactly the headings under which some column of a table has a value (zero included), the earlier ones in their order and new ones after them in order of first use, and removes only the properties of columns that have neither value nor children. "
     "No term, value, other property or other section changes, the edited document still reads back as itself, cleaning up twice changes nothing more, and a document without a schema is left alone.",
     ['inputs', 'histories'], 'for every document and every sequence of heading edits and clean-ups',
     'No passing test edits a heading or cleans a schema.',
     ['metatab/doc.py', 'metatab/terms.py'],
     [('heading edits', 'terms.py SectionTerm.add_arg, remove_arg'), ('schema clean-up', 'doc.py clean_unused_schema_terms')],
     ['headings and full structural snapshot after every edit'])

prop('C25', 'Using a document has no side effects outside of it',
     "Reading a document opens only that document and the files it includes or declares, only for reading, and closes each of them, whether the document is accepted or rejected. "
     "Reading, searching, editing, rendering and converting write, create, rename or delete no file outside of the cache folder, use no network for local references, print nothing, start no process or thread, "
     "and leave the working directory, environment, random state and other settings of the process as they were; saving touches the target file and nothing else.",
     ['inputs', 'histories', 'fault_sequences'], 'for every document, accepted or rejected, and every sequence of calls on it',
     'No test observes files, descriptors or process settings.',
     ['metatab/doc.py', 'metatab/parser.py', 'metatab/rowgen.py', 'metatab/terms.py', 'metatab/util.py'],
     [('opening files', 'parser.py generate_terms, rowgen.py TextRowGenerator; doc.py MetatabDoc.__init__, load_declarations'), ('writing', 'doc.py _write')],
     ['audit events of the interpreter', 'open descriptors, folder contents, output and process settings before and after'])

prop('C26', 'A process can handle any number of documents',
     "However many documents a process makes, opens, searches, edits, renders, saves and converts one after another, accepted or rejected, what it holds (documents, terms and other objects in memory, open files, threads) does not grow with the number handled once they are no longer referenced, "
     "apart from a fixed number of recent ones in caches.",
     ['histories', 'fault_sequences'], 'for every sequence of documents, accepted or rejected, and every use of them',
     'Tests handle a few documents and never look at what the process still holds.',
     ['metatab/doc.py', 'metatab/parser.py', 'metatab/terms.py', 'metatab/rowgen.py'],
     [('documents', 'doc.py MetatabDoc'), ('parser', 'parser.py TermParser, its cached super terms and its term classes')],
     ['live objects by type, open descriptors, threads and allocated blocks after rounds of the same work'])

prop('C27', 'Terms and sections are named and listed consistently',
     "The parent part of a term's name is the name of the term it is nested under ('root' for a top-level term), the other part its own name, and its qualified and joined names are made of these, in lower case. "
     "Testing a term against a name is true exactly for its own name in any letter case, an unqualified name standing for a top-level one, with '*' for either part, and for a list when any of its names is; splitting and normalizing a name trims and qualifies it, is idempotent, and refuses more than one dot with a parser error. "
     "Iterating a document gives its sections and iterating a section its terms, in order; the descendents of a term are all terms nested below it, each once, depth first; all_terms gives every section but the root and every term once; and sections are found in any letter case by item, get_section and membership, absent ones giving KeyError or the default.",
     ['inputs', 'histories'], 'for every document, parsed or edited, every name and every pattern',
     'Tests look at a few names of fixed documents.',
     ['metatab/terms.py', 'metatab/doc.py', 'metatab/parser.py', 'metatab/util.py'],
     [('names', 'terms.py Term.join, qualified_term, term_is; util'), ('listings', 'terms.py Term.descendents, SectionTerm.__iter__; doc.py MetatabDoc.__iter__, __getitem__, get_section, all_terms')],
     ['names, name tests and listings of every term and section'])

prop('C28', 'What a document means depends only on its text',
     "The same text gives the same document, errors, renderings, dictionary, search answers and saved bytes in every process, whatever its hash seed, locale, default encoding, time zone, working directory, environment and interpreter optimisation, "
     "and whether it is given as rows or as a file by its path, relative path, file url or metatab url; only the declarations that it names are, as documented, first looked for in the working directory.",
     ['inputs', 'configurations'], 'for every document and every process environment',
     'Tests run in one process with one environment.',
     ['metatab/doc.py', 'metatab/parser.py', 'metatab/terms.py', 'metatab/rowgen.py'],
     [('reading', 'parser.py TermParser; rowgen.py; doc.py MetatabDoc.__init__'), ('writing', 'doc.py _write, as_csv, as_lines')],
     ['documents, errors, renderings and files of fresh processes in different environments'])

prop('C29', 'A document tells where it is',
     "The path of a document opened from a local file, by any spelling of its reference (metatab or file url, relative or absolute, with any characters in its folders' names), names that file, its directory is the file's absolute directory, and its modification time is that of the file when it was opened. "
     "A document made from rows, text or nothing has neither path nor directory, and the modification time of its creation.",
     ['inputs', 'configurations'], 'for every location of a file and every spelling of its reference',
     'No passing test looks at the path, directory or modification time.',
     ['metatab/doc.py'],
     [('place', 'doc.py MetatabDoc.path, doc_dir, mtime, ref')],
     ['path, directory and modification time of documents opened from scratch folders'])

prop('C30', 'A document on the web is the document that its files are',
     "Opening a document by an http url, with or without the metatab prefix, or including or declaring it by that url from a local file, gives the same terms, properties, headings and declarations as opening the same files from a folder; the names in its Include and Declare rows are relative to the url of the file they are in, at every depth, or are urls themselves, which are used as they are written, query included. "
     "It asks for the files that the document names and no others. A file that the server refuses, or that includes itself, is an include error (a refused document itself another metatab error), never endless work or a partial document. "
     "The command line tool prints such a document as it prints others, and refuses to write it in place without writing anything.",
     ['inputs', 'fault_sequences', 'configurations'], 'for every set of files on a web server, every way to refer to them and every file that the server refuses',
     'The tests that open urls need the network and fail.',
     ['metatab/parser.py', 'metatab/appurl.py', 'metatab/doc.py', 'metatab/cli.py'],
     [('finding files', 'parser.py find_include_doc, find_declare_doc, canonical_ref, generate_terms'), ('urls', 'appurl.py MetatabUrl.get_resource, get_target'), ('printing', 'cli.py metatab, write_or_print')],
     ['documents opened from a server on the loopback network and from a folder', 'requests that the server got', 'output and exit status of the command'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
