import re, subprocess, sys
D = sys.argv[1]
def run(prog, lines):
    p = subprocess.run([f"{D}/{prog}"], input="".join(l + "\n" for l in lines), capture_output=True, text=True, timeout=60)
    return p.returncode, re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", p.stdout), p.stderr
def game(lines): return run("jacks-or-better", lines)
def repl(lines): return run("poker-repl", lines)
CARD = re.compile(r"\[ (..) \]")
def hands(out):
    "hands shown, in order: (cards, name)"
    return [(CARD.findall(l), re.search(r"\((.*)\)\s*$", l).group(1)) for l in out.split("\n") if len(CARD.findall(l)) == 5]
def credits(out): return [int(x) for x in re.findall(r"Credits: (\d+)", out)]
def winnings(out): return [int(x) for x in re.findall(r"Winnings: (\d+)", out)]
def bad(what):
    print(what); sys.exit(1)
# a long game with cards swapped in every order
import itertools
for sw in itertools.permutations("12345", 3):
    rc, out, err = game(["1", " ".join(sw)] * 60)
    if rc: bad(f"swap {sw}: exit {rc} {err}")
