"""C16: the update rules of Adagrad, RMSprop and Adam at every step."""
from checks.c15 import run_kinds
def run(rep):
    run_kinds(rep, ["adagrad", "rmsprop", "adam"], "C16")
