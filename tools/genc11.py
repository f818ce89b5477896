#!/usr/bin/env python3
# writes specs/gologix/c11g.go: a structure for every place a field can start at (the bytes
# before it modulo 8) and every number of packed booleans waiting before it, each followed by a
# boolean and a number; once for fields that share bits and once for fields tagged nopack
out=['''package gologix

// Code generated by tools/genc11.py. DO NOT EDIT.

''']
def fam(n,tag):
    for k in range(8):
        for j in range(8):
            p=f"\tP [{k}]int8\n" if k else ""
            bs="\t"+", ".join(f"B{i}" for i in range(j))+" bool\n" if j else ""
            out.append(f"type vcSh{n}{k}{j}[T comparable] struct {{\n{p}{bs}\tX T{tag}\n\tF bool\n\tZ int16\n}}\n\n")
    for k in range(8):
        f=[]
        for j in range(8):
            ini=(f"P: [{k}]int8{{"+", ".join(f"p[{i}]" for i in range(k))+"}, " if k else "")+"".join(f"B{i}: q[{i}], " for i in range(j))
            f.append(f'''	{{
		s := vcSh{n}{k}{j}[T]{{{ini}X: x, F: f, Z: z}}
		var u vcSh{n}{k}{j}[T]
		vcUnpacked(vcShape(s, p, q, f, z, {k}, {j}, x, lay), &u)
		if same {{
			vcEnsures("roundtrip", u == s)
		}}
	}}
''')
        out.append(f"func vcShapes{n}{k}[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {{\n"+"".join(f)+"}\n\n")
    out.append(f"func vcShapes{n}[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {{\n"+"".join(f"\tvcShapes{n}{k}(p, q, x, f, z, same, lay)\n" for k in range(8))+"}\n\n")
fam("P","")
fam("N",' `pack:"nopack"`')
open('specs/gologix/c11g.go','w').write("".join(out).rstrip()+"\n")
