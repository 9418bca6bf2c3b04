"""Shared by C16 and C17: validators that confine references to one component collection."""
from hypothesis import strategies as st

from . import gen, oracle, refs, words
from .gen import G
from .harness import Task, Violation, foreach
from .lib import AsyncAPI3, attempt, capture_warnings, dump, first, must_parse
from .table import OBJS, ROOT

BASES = st.sampled_from(["https://example.com/tags.yaml#/t", "./common.yaml#/tags/t", "other.json", "", "tags/t", " #/components/tags/t", "x#/components/tags/a",
                         "http://example.com/", "urn:example:t", "components/tags/a", "/#", "\t#"])
BASES = gen.also(BASES, gen.pick([r for w in words.TEXTS for r in (w, w + "/tags.yaml#/t", "./" + w) if not r.startswith("#")]))


class Family:
    def __init__(self, coll, typename, names, validator):
        self.coll, self.typename, self.validator = coll, typename, validator
        self.names = names
        self.positions = [refs.BY_NAME[n] for n in names]
        self.prefix = f"#/components/{coll}/"
        self.walked = (None, None)

    # ------------------------------------------------ generation
    def good(self, g, doc):
        """(doc, ref, label) of an acceptable reference."""
        how = g.draw(gen.UPTO[3])
        if how == 0:
            return doc, g.draw(BASES), "external"
        have = sorted((doc.get("components") or {}).get(self.coll, {}))
        if have and how == 1:
            return doc, self.prefix + have[g.draw(st.integers(0, len(have) - 1))], "existing"
        k = refs.fresh_key(g, doc, self.coll)
        doc = refs.add_component(g, doc, self.coll, k, refs.simple(g, self.typename))
        label = "component"
        if how == 3:
            k2 = refs.fresh_key(g, doc, self.coll)
            doc = refs.add_component(g, doc, self.coll, k2, {"$ref": self.prefix + k if g.draw(st.booleans()) else g.draw(BASES)})
            k, label = k2, "chained"
        return doc, self.prefix + k, label

    def bad(self, g, doc):
        d = g.draw
        how = d(st.sampled_from(["missing", "near", "near", "collection", "place", "shape"]))
        if how == "missing":
            k = refs.fresh_key(g, doc, self.coll)
            return doc, self.prefix + k, how
        doc2, ref, _ = self.good(g, doc)
        if not ref.startswith("#"):
            k = refs.fresh_key(g, doc, self.coll)
            doc2 = refs.add_component(g, doc, self.coll, k, refs.simple(g, self.typename))
            ref = self.prefix + k
        k = ref[len(self.prefix):]
        if how == "near":
            cands = refs.near_misses(ref) + [ref + "/", self.prefix + self.prefix + k, self.prefix + "/" + k, self.prefix, ref + "#", "#" + ref]
        elif how == "collection":
            names = [n for n in refs.HOMES if n != self.typename]
            name = names[d(st.integers(0, len(names) - 1))]
            coll = refs.HOMES[name][0]
            if k not in ((doc2.get("components") or {}).get(coll) or {}):
                doc2 = refs.add_component(g, doc2, coll, k, refs.simple(g, name))
            cands = [refs.pointer(("components", coll, k))]
        elif how == "place":
            cands = ["#/info/tags/0", "#/info/externalDocs", f"#/{self.coll}/{k}", "#/info", f"#/components/{self.coll}", "#/components", f"#/channels/{k}"]
        else:
            cands = ["#", "#/", "##", f"#components/{self.coll}/{k}", f"#/Components/{self.coll}/{k}", f"#/components/{self.coll.lower().capitalize()}/{k}",
                     f"# /components/{self.coll}/{k}", f"#/components//{self.coll}/{k}", f"#/components/{self.coll}.{k}", f"#/components/{self.coll}{k}",
                     f"#.components.{self.coll}.{k}"]
        cands = sorted(c for c in cands if self.verdict_ref(doc2, c) == "bad")
        if not cands:
            return doc2, self.prefix + "missing-zz", "missing"
        return doc2, cands[d(st.integers(0, len(cands) - 1))], how

    def verdict_ref(self, doc, ref):
        if not ref.startswith("#"):
            return "external"
        if not ref.startswith(self.prefix):
            return "bad"
        return "good" if ref[len(self.prefix):] in ((doc.get("components") or {}).get(self.coll) or {}) else "bad"

    def case(self, pos):
        fam = self

        @st.composite
        def make(draw):
            g = G(draw, 10, refs=BASES)
            mark = {"$ref": "https://placeholder.example/"}
            doc, path = refs.place(g, pos, mark, extra=draw(st.booleans()), many=draw(refs.MANY))
            todo = [path]
            for _ in range(draw(gen.UPTO[2])):
                p = fam.positions[draw(st.integers(0, len(fam.positions) - 1))]
                other, p2 = refs.place(g, p, mark, extra=draw(gen.UPTO[3]) == 0)
                out = refs.merge(doc, other)
                try:
                    ok = all(oracle.get_at(out, q) == mark for q in todo + [p2]) and oracle.conforms(ROOT, out) is None
                    ok = ok and {*todo, p2} <= {s[0] for s in refs.slots(out)}
                except (KeyError, IndexError, TypeError):
                    ok = False
                if ok and p2 not in todo:
                    doc, todo = out, todo + [p2]
            labels = set()
            isbad = draw(st.booleans())
            for q in todo[1:]:
                doc, ref, label = fam.good(g, doc)
                doc = oracle.set_at(doc, q + ("$ref",), ref)
                labels.add(label)
            doc, ref, label = (fam.bad if isbad else fam.good)(g, doc)
            doc = oracle.set_at(doc, path + ("$ref",), ref)
            return [("bad:" if isbad else "good:") + label, doc, list(path)]
        return make()

    # ------------------------------------------------ judgement
    def status(self, doc):
        """'bad' when a reference at one of the decided positions is bad, 'good' when all references to the type are good, else None."""
        worst = "good"
        for path, ref, exp in refs.slots(doc):
            if exp != {self.typename} or self.verdict_ref(doc, ref) != "bad":
                continue
            if self.position_of(path, doc) in self.names:
                return "bad"
            worst = None
        return worst

    def position_of(self, path, doc):
        parts = []
        if self.walked[0] is not doc:
            self.walked = (doc, {p: (d, s) for p, d, s, v in oracle.walk(ROOT, doc)})
        sels = self.walked[1]
        for i, p in enumerate(path):
            d, s = sels[path[:i]]
            parts.append("[]" if s.kind == "LIST" else "*" if s.kind in ("MAP", "PMAP") else p)
        return "/".join(parts)

    def prop(self, case):
        how, doc, path = case
        st_ = self.status(doc)
        if st_ is None:
            return None
        how = st_ + ":" + how.split(":")[1]
        V = self.validator
        m = must_parse(ROOT, doc)
        before = dump(m)
        ref = oracle.get_at(doc, path)["$ref"]
        where = f"{ref!r} at {refs.pointer(map(str, path))}"
        with capture_warnings() as logs:
            try:
                out, err = V()(m), None
            except ValueError as e:
                out, err = None, e
        parsed, perr = attempt(AsyncAPI3.model_validate, {**doc, "extra_validators": [V]})
        try:
            m.extra_validators = [V]
            aerr = None
        except ValueError as e:
            aerr = e
        d = oracle.diff(before, dump(m))
        if d:
            raise Violation(f"validation changed the document: {d}")
        for what, e in (("calling the validator", err), ("parsing", perr), ("assignment", aerr)):
            if st_ == "bad" and e is None:
                raise Violation(f"{what} accepts {where}")
            if st_ == "good" and e is not None:
                raise Violation(f"{what} refuses a document with good references ({where}): {str(e)[:300]}")
        if st_ == "good":
            if out is not m:
                raise Violation("the validator does not return the document it was given")
            d = oracle.diff(before, dump(parsed))
            if d:
                raise Violation(f"parsing with the validator changed the document: {d}")
            for path2, ref2, exp in refs.slots(doc):
                if exp == {self.typename} and not ref2.startswith("#") and self.position_of(path2, doc) in self.names:
                    if not any(ref2 in r for r in logs):
                        raise Violation(f"no warning about the external reference {ref2!r} at {path2}")
        elif m.extra_validators is not None:
            raise Violation("refused assignment left the validator in place")
        return how

    def tasks(self, tier, per):
        k = 1 if tier == "quick" else 30
        return foreach("positions", self.prop, self.positions, self.case, per * k, chunk=max(1, len(self.positions) // 16))
