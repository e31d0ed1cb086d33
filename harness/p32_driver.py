# runs pieces of Python that use the nla3d module; p32_python.cpp writes them and judges the answers
# request: lines of code up to "#END"; answer: one line, "ok" or "exc Type", and the numbers given to out(..)
import os, sys
answers = os.fdopen(os.dup(1), "w")
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1); os.dup2(devnull, 2)
sys.path.insert(0, sys.argv[1])
import nla3d as nla

def raises(kind, f):
    try:
        f()
    except kind:
        return True
    except Exception:
        return False
    return False

def assign(o, i, v): o[i] = v

while True:
    code = []
    for line in sys.stdin:
        if line == "#END\n":
            break
        code.append(line)
    else:
        break
    got = []
    def out(*a):
        for x in a:
            if isinstance(x, bool): got.append("1" if x else "0")
            elif isinstance(x, str): got.append("s:" + x.replace(" ", "_").replace("\n", "_"))
            else: got.append(repr(x))
    try:
        exec("".join(code), {"nla": nla, "out": out, "raises": raises, "assign": assign})
        head = "ok"
    except BaseException as e:
        head = "exc %s %s" % (type(e).__name__, str(e).replace("\n", " ")[:200])
        got = []
    answers.write(head + " | " + " ".join(got) + "\n")
    answers.flush()
