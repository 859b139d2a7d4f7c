"""Shared pieces of the checks."""
from .pbt import Violation, Discard, Info
from .refrun import Runner, parse_out, same
from .ref import Opts, TooLong


def vislcg3(env, grammar, text, args=(), gname="g.cg3", timeout=None):
    d = env.d
    p = d.write(gname, grammar)
    r = d.run("vislcg3", ["-g", p] + list(args), text, timeout)
    return r


def must(r, what, grammar, text, args=()):
    if r.rc != 0:
        raise Violation("%s ended with status %d" % (what, r.rc), "status", case(grammar, text, args) + "--- stderr\n" + r.err.decode("utf8", "replace")[-2500:])
    return r.out.decode("utf8", "replace")


def case(grammar, text, args=()):
    return "--- grammar\n%s--- input\n%s--- options %s\n" % (grammar, text, ' '.join(args))


def against_ref(env, g, text, opts=None, args=(), compare=None):
    """Run the reference and the program; raise on difference. Returns (runner, real output)."""
    o = opts or Opts(split_mappings=True)
    gt = g.text()
    run = Runner(g, o)
    try:
        want = run.run(text)
    except (TooLong, RecursionError):
        raise Discard()
    a = list(args)
    if o.split_mappings:
        a.append("--split-mappings")
    r = vislcg3(env, gt, text, a)
    out = must(r, "vislcg3", gt, text, a)
    diff = (compare or same)(want, parse_out(out))
    if diff:
        raise Violation(diff, "mismatch", case(gt, text, a) + "--- output\n" + out + "--- stderr\n" + r.err.decode("utf8", "replace")[-1500:])
    return run, out
