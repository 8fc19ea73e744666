import re, subprocess, sys
D = sys.argv[1]
def run(prog, lines):
    p = subprocess.run([f"{D}/{prog}"], input="".join(l + "\n" for l in lines), capture_output=True, text=True, timeout=60)
    return p.returncode, re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", p.stdout), p.stderr
def game(lines): return run("jacks-or-better", lines)
def repl(lines): return run("poker-repl", lines)
CARD = re.compile(r"\[ (..) \]")
def hands(out):
    "hands shown, in order: (cards, name)"
    return [(CARD.findall(l), re.search(r"\((.*)\)\s*$", l).group(1)) for l in out.split("\n") if len(CARD.findall(l)) == 5]
def credits(out): return [int(x) for x in re.findall(r"Credits: (\d+)", out)]
def winnings(out): return [int(x) for x in re.findall(r"Winnings: (\d+)", out)]
def bad(what):
    print(what); sys.exit(1)
# the game is over only without credits: bet everything at the end, and count
# the credits from what is announced
def one():
    lines = []
    for i in range(19): lines += ["5", ""]
    c = 100
    rc, out, err = game(lines)
    if rc: bad(f"exit {rc} {err}")
    c = 100
    for w in winnings(out): c += w if w else -5
    if "Game over" in out and c != 0: bad(f"game over with {c} credits")
    return c
for i in range(3000):
    # reach few credits, bet what is left
    rc, out, err = game(["5", ""] * 25 + ["4", ""] + ["3", ""] + ["2", ""] + ["1", ""] * 4)
    if rc: bad(f"exit {rc} {err}")
    # settle: which wagers were taken
    if "Game over" in out:
        c, prompts = None, credits(out)
        last = prompts[-1]
        w = winnings(out)[-1]
        if w: bad(f"the last round won {w}, and the game was over")
