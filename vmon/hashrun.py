"""Runs searches in a fresh process, whose hash seed is set by its parent: documents and queries on stdin, answers on stdout"""
import json, sys


def answers(files, queries):
    from . import live, parsecheck
    import os
    with live.workdir() as d:
        parsecheck.materialise(files, d)
        doc = live.MetatabDoc(os.path.join(d, 'main.csv'))
        out = []
        for q in queries:
            name, sec = q
            out.append([(t.join_lc, t.value, t.row) for t in doc.find(name, section=sec)])
            f = doc.find_first(name, section=sec)
            out.append([f.join_lc, f.value, f.row] if f is not None else None)
        out.append(doc.as_csv())
        out.append(doc.as_lines())
        out.append(json.dumps(doc.as_dict(), default=str))
        return json.loads(json.dumps(out, default=str))


if __name__ == '__main__':
    from . import boot
    req = json.load(sys.stdin)
    json.dump([answers(*r) for r in req], sys.stdout)
