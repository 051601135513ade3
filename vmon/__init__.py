"""Runtime monitors for Metatab/metatab. See ../DESIGN.md"""
