"""C02: discontinuous piecewise fully connected layers."""
from hol import fc

K = "discontinuous"
SCENARIOS = {
    "random": (fc.scenario_random(K), 1400, 30000),
    "grid": (fc.scenario_grid(K, 0), 320, 960),
    "nodes": (fc.scenario_nodes(K), 300, 3000),
    "breaks": (fc.scenario_breaks(K), 300, 4000),
    "history": (fc.scenario_history(K), 250, 4000),
    "large": (fc.scenario_large(K), 28, 200),
    "double": (fc.scenario_double(K), 150, 1500),
    "degenerate": (fc.scenario_empty(K), 120, 1000),
    "far": (fc.scenario_far(K), 150, 1500),
}
MUST_SEE = ["values_compared", "node_values_compared", "layers_built", "history_steps", "far_inputs"]
RULE = (
    "one case = one layer configuration (nodes, segments, features, length, mirror period), one weight "
    "pattern and one hostile batch (segment interiors, exact nodes, breakpoints and their float "
    "neighbours, ends, outside); non-trivial cases are counted by distinct configuration signature"
)
ASSUMPTIONS = [
    "float32 arithmetic; tolerance is a perturbation bound derived from the reference, not a constant",
    "beyond a few lengths only low orders are evaluated, where the extrapolated values stay finite",
]
