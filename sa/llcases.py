"""Program templates only the LLVM front end has to analyse: every kind of loop, early exits, library models of the C headers."""
from __future__ import annotations

from .cases import A, AB, B, I_, S, X, Y, add, asg, iff, lt, num, ret
from .progs import node

J = ("var", "j")
BRK, CONT = ("break",), ("continue",)
inc = asg("i", add(I_, num(1)))
acc = asg("s", add(S, I_))
init = [asg("i", num(0)), asg("s", num(0))]
c = lt(I_, A)


def loops(deep=False):
    """(name, body)"""
    out = [
        ("loop{if break}", init + [("while", c, [iff(lt(B, S), [BRK]), acc, inc]), ret(S)]),
        ("loop{if set break}", init + [("while", c, [iff(lt(B, S), [asg("s", num(7)), BRK]), acc, inc]), ret(S)]),
        ("loop{if break else}", init + [("while", c, [iff(lt(B, S), [BRK], [acc]), inc]), ret(S)]),
        ("loop{if else break}", init + [("while", c, [iff(lt(B, S), [acc], [asg("i", B), BRK]), inc]), ret(add(S, I_))]),
        ("loop{if continue}", init + [("while", c, [inc, iff(lt(B, S), [CONT]), acc]), ret(S)]),
        ("loop{if set continue}", init + [("while", c, [inc, iff(lt(B, S), [asg("s", num(0)), CONT]), acc]), ret(S)]),
        ("loop{if continue else}", init + [("while", c, [inc, iff(lt(B, S), [asg("x", I_), CONT], [acc]), asg("x", S)]), ret(add(S, X))]),
        ("loop{if break;if continue}", init + [("while", c, [inc, iff(lt(B, S), [BRK]), iff(lt(S, num(2)), [CONT]), acc]), ret(S)]),
        ("loop{if break;if ret}", init + [("while", c, [inc, iff(lt(B, S), [BRK]), iff(lt(S, num(2)), [ret(I_)]), acc]), ret(S)]),
        ("loop{break at end}", init + [("while", c, [iff(lt(I_, B), [acc, inc, CONT]), BRK]), ret(S)]),
        ("loop{set ret}", init + [("while", c, [iff(lt(B, S), [asg("x", S), ret(add(X, num(1)))]), acc, inc]), ret(S)]),
        ("for", [asg("s", num(0)), asg("i", num(0)), ("for", c, [inc], [acc]), ret(S)]),
        ("for{if}", [asg("s", num(0)), asg("i", num(0)), ("for", c, [inc], [iff(lt(S, B), [acc])]), ret(S)]),
        ("for{continue}", [asg("s", num(0)), asg("i", num(0)), ("for", c, [inc], [iff(lt(S, B), [CONT]), acc]), ret(S)]),
        ("for{break}", [asg("s", num(0)), asg("i", num(0)), ("for", c, [inc], [acc, iff(lt(S, B), [BRK])]), ret(add(S, I_))]),
        ("for{ret}", [asg("s", num(0)), asg("i", num(0)), ("for", c, [inc], [acc, iff(lt(S, B), [ret(I_)])]), ret(S)]),
        ("for{for}", [asg("s", num(0)), asg("i", num(0)), asg("j", num(0)), ("for", c, [inc], [asg("j", num(0)), ("for", lt(J, B), [asg("j", add(J, num(1)))], [asg("s", add(S, J))])]), ret(S)]),
        ("for{for{break}}", [asg("s", num(0)), asg("i", num(0)), asg("j", num(0)), ("for", c, [inc], [asg("j", num(0)), ("for", lt(J, B), [asg("j", add(J, num(1)))], [iff(lt(S, J), [BRK]), asg("s", add(S, J))])]), ret(S)]),
        ("for{for{continue}}", [asg("s", num(0)), asg("i", num(0)), asg("j", num(0)), ("for", c, [inc], [asg("j", num(0)), ("for", lt(J, B), [asg("j", add(J, num(1)))], [iff(lt(S, J), [CONT]), asg("s", add(S, J))])]), ret(S)]),
        ("for{for;break}", [asg("s", num(0)), asg("i", num(0)), asg("j", num(0)), ("for", c, [inc], [asg("j", num(0)), ("for", lt(J, B), [asg("j", add(J, num(1)))], [asg("s", add(S, J))]), iff(lt(B, S), [BRK])]), ret(S)]),
        ("do", init + [("do", [acc, inc], c), ret(S)]),
        ("do{if}", init + [("do", [iff(lt(S, B), [acc]), inc], c), ret(S)]),
        ("do{break}", init + [("do", [inc, iff(lt(S, B), [BRK]), acc], c), ret(add(S, I_))]),
        ("do{continue}", init + [("do", [inc, iff(lt(S, B), [CONT]), acc], c), ret(S)]),
        ("do{ret}", init + [("do", [inc, iff(lt(S, B), [ret(I_)]), acc], c), ret(S)]),
        ("do compound", init + [("do", [acc, inc], ("and", c, lt(S, B))), ret(S)]),
        ("do{while}", init + [("do", [inc, ("while", lt(S, I_), [asg("s", add(S, num(1)))])], c), ret(S)]),
        ("while or", init + [("while", ("or", c, lt(S, B)), [acc, inc]), ret(S)]),
        ("while and or", init + [("while", ("and", ("or", c, lt(S, B)), lt(num(0), B)), [acc, inc]), ret(S)]),
        ("if or;loop", init + [iff(("or", lt(A, B), lt(B, num(0))), [asg("i", A)]), ("while", c, [acc, inc]), ret(S)]),
        ("loop{if and}", init + [("while", c, [iff(("and", lt(S, B), lt(I_, num(5))), [acc], [asg("s", num(0))]), inc]), ret(S)]),
        ("break only", init + [("while", c, [acc, BRK]), ret(S)]),
        ("if{loop{break}}else", init + [iff(lt(A, B), [("while", c, [inc, iff(lt(S, B), [BRK]), acc])], [asg("s", B)]), ret(add(S, I_))]),
    ]
    if deep:
        inner = {"while": lambda b: ("while", lt(J, B), b + [asg("j", add(J, num(1)))]), "for": lambda b: ("for", lt(J, B), [asg("j", add(J, num(1)))], b), "do": lambda b: ("do", b + [asg("j", add(J, num(1)))], lt(J, B))}
        outer = {"while": lambda b: ("while", c, b + [inc]), "for": lambda b: ("for", c, [inc], b), "do": lambda b: ("do", b + [inc], c)}
        exits = {"": [], "break": [BRK], "ret": [ret(J)], "continue": [asg("x", S), CONT]}
        for o in outer:
            for n in inner:
                for k, e in exits.items():
                    for k2, e2 in exits.items():
                        if (k == "continue" and o == "while") or (k2 == "continue" and n == "while"):
                            continue     # the counter would not advance
                        bi = ([iff(lt(S, B), e2)] if e2 else []) + [asg("s", add(S, J))]
                        bo = [asg("j", num(0)), inner[n](bi)] + ([iff(lt(X, S), e)] if e else [])
                        out.append(("%s[%s]{%s[%s]}" % (o, k, n, k2), init + [asg("x", num(1)), asg("j", num(0)), outer[o](bo), ret(add(S, X))]))
    return out
