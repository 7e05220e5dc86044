"""What each proof leaves unchecked, per property (goes into the evidence)."""
ASSUMPTIONS = {
 "C01": ["user rules, inputs and topology rules are arbitrary functions of what they are given and return normally"],
 "C05": ["a memoized rule is a function of the key it is memoized under (the hypothesis of the property)"],
 "C08": ["msgpack gives back an equal value for the kinds of values the property lists (run for real in the bounded part of C09)"],
 "C09": ["msgpack gives back an equal value for the kinds of values the property lists (run for real in the bounded part)"],
 "C12": ["the neighbours of a node come out of in_edges in the order in which add_edge put them in, which is ascending for the built networks"],
 "C14": ["networkx's graphs are taken by contract: nodes, edges and their data are what its documentation says"],
 "C20": ["strings are wholes with the facts used: reversing twice gives the string back, a one-symbol set means all characters are equal, base_repr(i, k).zfill(n) enumerates the n-digit strings over k digits once each",
         "the table walked through is closed under mirroring when isotropy is asked for"],
 "C21": ["Langton's loop: the pattern is placed inside the grid and patterns do not overlap"],
 "C23": ["tape-centric form: directions in the rule table are 0, 1 and 2 as the rule-table format says"],
 "C24": ["strings are wholes and their concatenation is a function; padding: integer labels and numeric activities"],
 "C26": ["all training patterns have the same length"],
 "C27": ["the current network keeps the invariant (degree = links to the four lattice neighbours); random numbers are arbitrary in [0, 1)"],
 "C28": ["log2 is an uninterpreted function"],
 "C30": ["sqrt and tanh are real functions; the network is the full one that get_tour_graph's users build"],
 "C31": ["sin and cos are uninterpreted functions"],
}
LEVEL = {}
