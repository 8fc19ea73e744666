import re, subprocess, sys
D = sys.argv[1]
def run(prog, lines):
    p = subprocess.run([f"{D}/{prog}"], input="".join(l + "\n" for l in lines), capture_output=True, text=True, timeout=60)
    return p.returncode, re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", p.stdout), p.stderr
def game(lines): return run("jacks-or-better", lines)
def repl(lines): return run("poker-repl", lines)
CARD = re.compile(r"\[ (..) \]")
def hands(out):
    "hands shown, in order: (cards, name)"
    return [(CARD.findall(l), re.search(r"\((.*)\)\s*$", l).group(1)) for l in out.split("\n") if len(CARD.findall(l)) == 5]
def credits(out): return [int(x) for x in re.findall(r"Credits: (\d+)", out)]
def winnings(out): return [int(x) for x in re.findall(r"Winnings: (\d+)", out)]
def bad(what):
    print(what); sys.exit(1)
# straights pay four times the wager, whatever their high card
seen = 0
for i in range(4000):
    rc, out, err = game(["1", ""] * 400)
    if rc: bad(f"exit {rc} {err}")
    names = [n for _, n in hands(out)]
    for n, w in zip(names[1::2], winnings(out)):
        if n.startswith("Straight, ") and w != 4: bad(f"{n} pays {w}")
        seen += n == "Straight, ace-high"
    if seen >= 12: break
print("ace-high straights:", seen)
