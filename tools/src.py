import ast,sys
def strip(n):
    for x in ast.walk(n):
        if isinstance(x,(ast.FunctionDef,ast.Module)) and x.body and isinstance(x.body[0],ast.Expr) and isinstance(x.body[0].value,ast.Constant) and isinstance(x.body[0].value.value,str):
            x.body=x.body[1:] or [ast.Pass()]
    return n
f=sys.argv[1]; names=sys.argv[2:]
t=strip(ast.parse(open(f).read()))
fs=[x for x in t.body if isinstance(x,ast.FunctionDef)]
if len(names)==2 and names[0].isdigit():
    fs=fs[int(names[0]):int(names[1])]
elif names: fs=[x for x in fs if x.name in names]
for x in fs: print(ast.unparse(x)); print()
