"""C02: updates change exactly the vertices and edges they name (specifications shared with C01)."""
from contracts import c01
c01.ops("C02")
