import re, subprocess, sys
D = sys.argv[1]
def run(prog, lines):
    p = subprocess.run([f"{D}/{prog}"], input="".join(l + "\n" for l in lines), capture_output=True, text=True, timeout=60)
    return p.returncode, re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", p.stdout), p.stderr
def game(lines): return run("jacks-or-better", lines)
def repl(lines): return run("poker-repl", lines)
CARD = re.compile(r"\[ (..) \]")
def hands(out):
    "hands shown, in order: (cards, name)"
    return [(CARD.findall(l), re.search(r"\((.*)\)\s*$", l).group(1)) for l in out.split("\n") if len(CARD.findall(l)) == 5]
def credits(out): return [int(x) for x in re.findall(r"Credits: (\d+)", out)]
def winnings(out): return [int(x) for x in re.findall(r"Winnings: (\d+)", out)]
def bad(what):
    print(what); sys.exit(1)
def answers(lines):
    rc, out, err = repl(lines)
    if rc: bad(f"exit {rc} {err}")
    return out.split("\n")
hs = ["2c 2c 3d 9h 5s", "2c 2d 3c 9h 5s", "2c 3c 4c 5c 7c 9d", "2d 3c 4c 5c 7c 9c", "2h 3h 4h 5h 7h", "7h 2h 5h 4h 3h"]
for a in hs:
    for b in hs:
        if answers([a, b])[-2] != answers([b])[-2]: bad(f"{b!r} is answered differently after {a!r}: {answers([a, b])[-2]}")
