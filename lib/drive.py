"""Child process: loads the library and runs one scenario function of a check, writing events as they happen."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    mod, func, lib, argf, outf = sys.argv[1:6]
    m = importlib.import_module("checks." + mod)
    arg = json.load(open(argf))
    out = open(outf, "w", buffering=1)
    def emit(**ev):
        out.write(json.dumps(ev, separators=(",", ":")) + "\n")
    from nn import NN
    n = NN(lib) if lib != "-" else None
    getattr(m, func)(n, arg, emit)
    out.write('{"ev":"__end"}\n')
    out.close()
    sys.stdout.flush()
    os._exit(0)
main()
