"""Independent view of the geometry: names -> bit masks over atoms."""
COMPAT = [
    ('ASCC', 'US-ASCC'), ('CSG', 'CN-CSG'), ('FRCC', 'US-FRCC'), ('HICC', 'US-HICC'), ('MRO, US only', 'US-MRO'),
    ('NPCC, US only', 'US-NPCC'), ('RFC', 'US-RFC'), ('SERC', 'US-SERC'), ('SGCC', 'CN-SGCC'), ('SPP', 'US-SPP'),
    ('TRE', 'US-TRE'), ('WECC, US only', 'US-WECC'),
    ('IAI Area 2, North America', 'IAI Area, North America'), ("IAI Area 1, Africa", 'IAI Area, Africa'),
    ("IAI Area 3, South America", 'IAI Area, South America'),
    ("IAI Area 4&5 without China", 'IAI Area, Asia, without China and GCC'),
    ("IAI Area 8, Gulf", 'IAI Area, Gulf Cooperation Council'), ('IAI Area 1', 'IAI Area, Africa'),
    ('IAI Area 2, without Quebec', 'IAI Area, North America, without Quebec'),
    ('IAI Area 3', "IAI Area 3, South America"),
    ('IAI Area 4&5, without China', 'IAI Area, Asia, without China and GCC'),
    ('IAI Area 8', 'IAI Area, Gulf Cooperation Council'),
    ('IAI Area, Europe outside EU & EFTA', 'IAI Area, Russia & RER w/o EU27 & EFTA')]


class Geo:
    def __init__(self):
        from constructive_geometries import ConstructiveGeometries
        cg = ConstructiveGeometries()
        faces = {k: set(v) for k, v in cg.data.items()}
        faces["GLO"] = set(cg.all_faces)
        for old, new in COMPAT:
            faces[old] = set(faces[new])
        faces.pop("RoW", None)
        self.faces = faces
        self.names = sorted(faces)
        sig = {f: [] for f in faces["GLO"]}
        for k, n in enumerate(self.names):
            for f in faces[n]:
                sig.setdefault(f, []).append(k)
        groups = {}
        for f, s_ in sig.items():
            groups.setdefault(tuple(s_), []).append(f)
        self.atoms = [frozenset(v) for _, v in sorted(groups.items())]
        self.atom_of = {f: i for i, a in enumerate(self.atoms) for f in a}
        self.mask = {n: 0 for n in self.names}
        for i, (sg, _) in enumerate(sorted(groups.items())):
            for k in sg:
                self.mask[self.names[k]] |= 1 << i
        self.size = {n: len(faces[n]) for n in self.names}
        self.mask["RoW"] = 0

    def inside(self, n):
        m = self.mask[n]
        return [x for x in self.names if self.mask[x] & ~m == 0]

    def around(self, n):
        m = self.mask[n]
        return [x for x in self.names if m & ~self.mask[x] == 0]

    def overlapping(self, n):
        m = self.mask[n]
        return [x for x in self.names if self.mask[x] & m]

    def disjoint(self, rnd, n, pool=None, start=()):
        """n pairwise disjoint locations"""
        pool = list(pool or [x for x in self.names if x != "GLO"])
        rnd.shuffle(pool)
        out, m = list(start), 0
        for x in out:
            m |= self.mask[x]
        for x in pool:
            if len(out) >= n:
                break
            if not self.mask[x] & m:
                out.append(x)
                m |= self.mask[x]
        return out

    def table(self, names, weight=None):
        """Topology record over the given names (merged atoms); returns the
        record and the map atom index -> record atom (for face sets)."""
        names = sorted(set(names) | {"GLO"} - {"RoW"})
        names = [n for n in names if n != "RoW" and n in self.mask]
        cls, amap, w = {}, {}, []
        masks = [self.mask[n] for n in names]
        for i, a in enumerate(self.atoms):
            sg = tuple((m >> i) & 1 for m in masks)
            if sg not in cls:
                cls[sg] = len(w) + 1
                w.append(0)
            amap[i] = cls[sg]
            w[cls[sg] - 1] += len(a) if weight is None else sum(weight(f) for f in a)
        loc = {n: [] for n in names}
        for sg, k in cls.items():
            for n, b in zip(names, sg):
                if b:
                    loc[n].append(k)
        return {"w": w, "loc": loc}, amap

    def set_of(self, faces, T, amap):
        """Face set -> record atoms; second value: is it a union of atoms?"""
        cnt = {}
        for f in faces:
            if f not in self.atom_of:
                return [], False
            cnt[amap[self.atom_of[f]]] = cnt.get(amap[self.atom_of[f]], 0) + 1
        full = {}
        for i, a in enumerate(self.atoms):
            full[amap[i]] = full.get(amap[i], 0) + len(a)
        return sorted(cnt), all(full[k] == v for k, v in cnt.items())


_g = None


def geo():
    global _g
    if _g is None:
        _g = Geo()
    return _g
