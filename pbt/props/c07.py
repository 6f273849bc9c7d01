"""C07: ray-sphere intersection reports exactly the crossings ahead of the ray."""
from .. import gen, quadric
from ..core import Sub

RULE = "The ray is placed by its perpendicular offset from the centre (as a fraction of the radius) and its start along the line, so the crossings are known by construction."

SUBS = [
    Sub("crossings", lambda: gen.decoded(quadric.crossing_case("sphere"), 80), quadric.o_crossings, quick=20000, shards=3,
        thorough=300000, rule="the line crosses the sphere"),
    Sub("any_ray", lambda: gen.decoded(quadric.any_case("sphere"), 80), quadric.o_crossings, quick=8000, shards=1,
        thorough=100000, rule="the line crosses the sphere"),
    Sub("no_rehit", lambda: gen.decoded(quadric.crossing_case("sphere"), 80), quadric.o_rehit, quick=6000, shards=2,
        thorough=80000, rule="there is a crossing to continue from, not nearly tangent"),
    Sub("tangent", lambda: gen.decoded(quadric.tangent_case("sphere"), 30), quadric.o_tangent, quick=3000, shards=1,
        thorough=20000, rule="every case: exact tangency in whole numbers"),
    Sub("membership", lambda: gen.decoded(quadric.point_case("sphere"), 60), quadric.o_point, quick=10000, shards=1,
        thorough=100000, rule="the point is neither the centre nor further than a radius from the surface"),
]
