"""Converts a list of inputs in a process of its own and writes what came out:
python pure.py LIST OUT   (run by the checks with environments of all kinds)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def one(q, target, saved):
    if "path" in q:
        r = target.TexReader()
        res = r.process(q["path"])
        try:
            r.save_to_json(res, saved)
            with open(saved, "rb") as f:
                return r.to_json(res) + "\nsaved: " + f.read().decode("utf-8", "backslashreplace")
        finally:
            res.cleanup()
            if os.path.exists(saved):
                os.remove(saved)
    return json.dumps(target.dump(target.TokenBuilder().build(target.LatexParser().parse(q["text"], preprocess=q["pre"]))))


def main(src, dst):
    from rv import target
    out = []
    with open(src, encoding="utf-8") as f:
        reqs = json.load(f)
    for q in reqs:
        try:
            out.append(one(q, target, dst + ".saved"))
        except BaseException as e:
            out.append("%s: %s" % (type(e).__name__, str(e)[:80]))
    with open(dst, "w", encoding="utf-8") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main(*sys.argv[1:])
