#!/usr/bin/env python3
# writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head='''## Planted bugs
`tools/plant.py` confirms each in /repo (builds, stable tests pass, demo 0 without and non-zero with it, tree restored) and stores
it in `seeded/`; this table is written by `tools/mkplanted.py`. Every one is caught by the check of its own property. Those marked *
were missed at first: reversing a track whose position is at one of its ends was never done (C16), no file shared the muon's
tables with the tau only (C19), no spectrum had tau neutrinos of one type only (C23),
and no sequence lost its elements between the look at them and their conversion (C30). Besides these, every source file
of the repository was put through a campaign of small random mutations; the survivors which change behaviour led to the
comparisons with published decay functions (C13), beyond the edges of grids (C08), of every iterator operation (C01), of single elements (C04), of the ends of
profiles and of what bodies say they are made of (C15), of files of earlier versions (C17), of files which only look like HDF5 (C19)
and of the default mixing (C21).

| bug | property, caught by | needs | breaks |
|---|---|---|---|
'''
miss={"M16","M19","M23","M39"}|set(open(V+"/tools/missed.txt").read().split() if os.path.exists(V+"/tools/missed.txt") else [])
rows=""
for f in sorted(glob.glob(V+"/seeded/*/meta.json"),key=lambda f:int(f.split("/")[-2][1:])):
    m=json.load(open(f)); i=f.split("/")[-2]
    rows+=f"| {i}{'*' if i in miss else ''} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
d=open(V+"/DESIGN.md").read(); k=d.index("## Planted bugs"); e=d.find("\n## ",k+5); rest="" if e<0 else d[e:]
open(V+"/DESIGN.md","w").write(d[:k]+head+rows+rest)
