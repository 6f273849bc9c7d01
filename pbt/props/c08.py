"""C08: infinite-cylinder intersection and membership are exact for any axis."""
from .. import gen, quadric
from ..core import Sub

RULE = "The ray is placed by its perpendicular offset from the axis (as a fraction of the radius), slope and start, so the crossings are known by construction; axes include both plotting directions and hair's breadths off them."

SUBS = [
    Sub("crossings", lambda: gen.decoded(quadric.crossing_case("cyl"), 100), quadric.o_crossings, quick=14000, shards=4,
        thorough=300000, rule="the line crosses the cylinder"),
    Sub("any_ray", lambda: gen.decoded(quadric.any_case("cyl"), 80), quadric.o_crossings, quick=5000, shards=1,
        thorough=100000, rule="the line crosses the cylinder"),
    Sub("no_rehit", lambda: gen.decoded(quadric.crossing_case("cyl"), 100), quadric.o_rehit, quick=3000, shards=2,
        thorough=60000, rule="there is a crossing to continue from, not nearly tangent"),
    Sub("tangent", lambda: gen.decoded(quadric.tangent_case("cyl"), 30), quadric.o_tangent, quick=2000, shards=1,
        thorough=20000, rule="every case: exact tangency in whole numbers"),
    Sub("parallel", lambda: gen.decoded(quadric.parallel_case, 60), quadric.o_parallel, quick=2000, shards=1,
        thorough=20000, rule="every case: rays parallel to the axis, inside, outside and on the surface"),
    Sub("membership", lambda: gen.decoded(quadric.point_case("cyl"), 60), quadric.o_point, quick=6000, shards=1,
        thorough=100000, rule="the point is neither on the axis nor further than a radius from the surface"),
]
