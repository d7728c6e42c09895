"""Probes for the entries of known_findings.txt: each returns True while the defect is still there."""


def run(name):
    try:
        return 1 if globals()["probe_" + name]() else 0
    except BaseException:
        import traceback
        traceback.print_exc()
        return 3


def probe_plain_derived_in_base_field():
    import dataclasses
    import serde

    @dataclasses.dataclass
    class P:
        x: int

    @dataclasses.dataclass
    class Sub(P):
        extra: int = 1

    @serde.serde
    @dataclasses.dataclass
    class Hold:
        p: P

    before = serde.to_dict(Hold(Sub(1)))
    serde.from_dict(Sub, {"x": 1})
    try:
        return serde.to_dict(Hold(Sub(1))) != before
    except serde.SerdeError:
        return True


def probe_plain_nested_after_direct():
    import dataclasses
    import serde

    @dataclasses.dataclass
    class Plain:
        x: int

    serde.to_dict(serde.from_dict(Plain, {"x": 1}))

    @serde.serde
    @dataclasses.dataclass
    class Hold:
        p: Plain

    try:
        serde.from_dict(Hold, {"p": {"x": "text"}})
        return True
    except serde.SerdeError:
        return False
