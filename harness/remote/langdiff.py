import json


def run(arg):
    from tealish.langspec import LangSpec, compare_langspecs
    out = []
    for a, b in arg:
        A, B = LangSpec(a), LangSpec(b)
        gone, new = compare_langspecs(A, B)
        ok = B.new_ops(A) == new and A.new_ops(B) == gone
        out.append({"new": list(new), "gone": list(gone), "same": ok, "a": list(A.ops), "b": list(B.ops)})
    return out


def active(arg):
    import tealish.langspec as l
    return {"local": l.get_active_langspec() is l.local_lang_spec and l.local_lang_spec is not None, "new": l.get_new_local_ops(),
            "packaged": list(l.packaged_lang_spec.ops)}
