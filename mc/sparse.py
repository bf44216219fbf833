"""Reads a sparse tensor through an MLIR #sparse_tensor.encoding, level by level."""
import re

import torch


def parse(enc):
    m = re.fullmatch(
        r"#sparse_tensor\.encoding<\{\s*map\s*=\s*\(([^)]*)\)\s*->\s*\((.*)\)\s*,\s*posWidth\s*=\s*(\d+)"
        r"\s*,\s*crdWidth\s*=\s*(\d+)\s*\}>", enc.strip())
    if not m:
        raise ValueError(f"cannot parse encoding {enc}")
    dims = [x.strip() for x in m.group(1).split(",")]
    lv, depth, cur = [], 0, ""
    for ch in m.group(2):
        if ch == "," and depth == 0:
            lv.append(cur)
            cur = ""
            continue
        depth += ch == "("
        depth -= ch == ")"
        cur += ch
    lv.append(cur)
    out = []
    for l in lv:
        e, _, t = l.partition(":")
        em = re.fullmatch(r"\s*(d\d+)\s*(?:(floordiv|mod)\s+(\d+))?\s*", e)
        tm = re.fullmatch(r"\s*(\w+)\s*(?:\(([^)]*)\))?\s*", t)
        if not em or not tm:
            raise ValueError(f"cannot parse level {l}")
        props = [p.strip() for p in (tm.group(2) or "").split(",") if p.strip()]
        out.append((dims.index(em.group(1)), em.group(2), int(em.group(3) or 1), tm.group(1), props))
    return len(dims), out, int(m.group(3)), int(m.group(4))


def buffers(t):
    L = t.layout
    if L is torch.sparse_coo:
        idx = t._indices()
        return torch.tensor([0, t._nnz()]), [idx[k] for k in range(idx.shape[0])], t._values(), idx
    if L in (torch.sparse_csr, torch.sparse_bsr):
        return t.crow_indices(), [t.col_indices()], t.values(), t.col_indices()
    return t.ccol_indices(), [t.row_indices()], t.values(), t.row_indices()


def decode(t, enc):
    """dense tensor that `enc` describes over t's storage buffers"""
    rank, levels, posw, crdw = parse(enc)
    if rank != t.dim():
        raise ValueError(f"encoding rank {rank} for a rank {t.dim()} tensor")
    pos, crds, vals, idx = buffers(t)
    if torch.iinfo(pos.dtype).bits != posw and t.layout is not torch.sparse_coo:
        raise ValueError(f"posWidth {posw} for {pos.dtype}")
    if torch.iinfo(idx.dtype).bits != crdw:
        raise ValueError(f"crdWidth {crdw} for {idx.dtype}")
    if t.layout is torch.sparse_coo and torch.iinfo(idx.dtype).bits != posw:
        raise ValueError(f"posWidth {posw}")
    nbatch = 0
    for _, _, _, k, _ in levels:
        if k == "batch":
            nbatch += 1
        else:
            break
    out = torch.zeros(t.shape, dtype=t.dtype)
    n_comp = sum(1 for l in levels if l[3] in ("compressed", "singleton"))
    if n_comp != len(crds):
        raise ValueError(f"{n_comp} coordinate levels for {len(crds)} coordinate arrays")

    def lvl_size(l):
        d, op, k, _, _ = l
        n = t.shape[d]
        if op == "floordiv":
            return n // k
        if op == "mod":
            return k
        return n

    writes = 0

    def walk(i, p, coord, pos, crds, vals, ci, first):
        nonlocal writes
        if i == len(levels):
            c = [0] * rank
            seen = {}
            for (d, op, k, _, _), v in zip(levels, coord):
                seen.setdefault(d, []).append((op, k, v))
            for d in range(rank):
                c[d] = 0
                for op, k, v in seen[d]:
                    c[d] += v * k if op == "floordiv" else v
            out[tuple(c)] += vals.reshape(-1)[p]
            writes += 1
            return
        d, op, k, kind, props = levels[i]
        n = lvl_size(levels[i])
        if kind == "batch":
            for j in range(n):
                walk(i + 1, p, coord + [j], pos[j] if pos.dim() > 1 else pos, [c[j] for c in crds],
                     vals[j], ci, first)
        elif kind == "dense":
            for j in range(n):
                walk(i + 1, p * n + j, coord + [j], pos, crds, vals, ci, first)
        elif kind == "compressed":
            lo, hi = int(pos[p]), int(pos[p + 1])
            if t.layout is torch.sparse_coo and "nonunique" not in props:
                raise ValueError("COO outer level must be nonunique")
            for q in range(lo, hi):
                walk(i + 1, q, coord + [int(crds[ci][q])], pos, crds, vals, ci + 1, False)
        elif kind == "singleton":
            last = all(l[3] not in ("singleton",) for l in levels[i + 1:])
            if "soa" not in props or ("nonunique" in props) == last:
                raise ValueError(f"bad singleton properties {props}")
            walk(i + 1, p, coord + [int(crds[ci][p])], pos, crds, vals, ci + 1, False)
        else:
            raise ValueError(f"unknown level kind {kind}")

    walk(0, 0, [], pos, crds, vals, 0, True)
    if writes != vals.numel():
        raise ValueError(f"levels enumerate {writes} entries, storage has {vals.numel()}")
    return out
