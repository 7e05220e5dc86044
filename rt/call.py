"""calling an activity rule through a real one-step evolution"""
import netomaton as ntm


def call_rule(rule, nb, centre=0, t=1, labels=None):
    """the result of the rule on a cell whose ordered neighbourhood activities are nb, nb[centre] being the cell's own"""
    n = len(nb)
    labels = labels or list(range(n))
    net = ntm.Network()
    for l in labels: net.add_node(l)
    c = labels[centre]
    for l in labels: net.add_edge(l, c)
    net.rotation_system = {l: list(labels) if l == c else [] for l in labels}
    res = {}
    def wrapped(ctx):
        if ctx.node_label == c:
            r = rule(ctx)
            res["r"] = r
            return r
        return ctx.current_activity
    tr = ntm.evolve(net, dict(zip(labels, nb)), wrapped, 2)
    return res["r"], tr[-1].activities[c]
