"""Real trees (mpllayout.containers.Node and subclasses) and their listings."""
import numpy as np
import jax

from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constructions as con


class Special(cn.Node):
    """A user-defined node type whose constructor has another signature"""

    def __init__(self, label):
        super().__init__(label, {})


KINDS = {
    "N": cn.Node,
    "S": Special,
    "K": con.PrimKeysNode,
    "R": con.ParamsNode,
    "P": pr.PrimitiveNode,
    "T": pr.Point,
    "L": pr.Line,
    "G": pr.Polygon,
    "Q": pr.Quadrilateral,
    "A": pr.Axes,
}
KIND_OF = {v: k for k, v in KINDS.items()}
#: registered with jax as pytrees
PYTREE_KINDS = ["N", "P", "T", "L", "G", "Q", "A"]


def node(kind, value, children):
    return KINDS[kind].from_tree(value, children)


def build(tree, names=None, value=lambda i: i):
    """The real tree for a specification tree"""
    names = names or {}
    return node(
        tree["kind"], value(tree["id"]),
        {names.get(c["k"], c["k"]): build(c["t"], names, value) for c in tree["ch"]},
    )


def kind_of(n):
    return KIND_OF.get(type(n), type(n).__name__)


def listing(root, ident=lambda v: v):
    """
    Depth-first listing through child names only

    Every node is reached by repeated single-name lookup, which is the elementary
    observation; everything else is compared with it.
    """
    out = []

    def visit(path, n):
        if len(out) > 2000:       # more than any tree of the checks has
            raise ValueError("endless tree")
        keys = list(n.keys())
        out.append({"p": path, "id": ident(n.value), "kind": kind_of(n), "keys": keys})
        for k in keys:
            visit(path + [k], n[k])

    visit([], root)
    return out


def ident_array(v):
    return int(np.asarray(v).ravel()[0])


def observe_lists(n):
    """Counting, listing, indexing and slicing of the children of a node"""
    keys, values = list(n.keys()), list(n.values())
    num = len(n)
    return {
        "keys": keys,
        "iter": list(iter(n)),
        "items": [k for k, _ in n.items()],
        "len": num,
        "same": (
            all(v is n[k] for k, v in n.items())
            and all(v is n[k] for k, v in zip(keys, values))
            and len(values) == num
            and list(n.children.keys()) == keys
            and all(n.children[k] is n[k] for k in keys)
        ),
        "index": all(
            n[i] is values[i] and n[i - num] is values[i] for i in range(num)
        ) and raises(lambda: n[num]) and raises(lambda: n[-num - 1]),
        "slice": all(
            [id(x) for x in n[slice(a, b, c)]] == [id(x) for x in values[slice(a, b, c)]]
            for a in (None, 0, 1, -1) for b in (None, 0, 1, 2, -1) for c in (None, 1, 2, -1)
        ),
    }


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def lists_ok(obs, keys):
    return (
        obs["keys"] == keys and obs["iter"] == keys and obs["items"] == keys
        and obs["len"] == len(keys) and obs["same"] and obs["index"] and obs["slice"]
    )
