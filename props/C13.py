from vf import H
TITLE = "Graphs record exactly the undirected weighted edges inserted"
HARNESSES = [
    H("graph_ops", "misc.c", defs={"NV":3,"NE":3,"NS":4,"NSD":3}, tdefs={"NV":4,"NE":4}, engine="se", leak=True, bounds="graphs of 0..NV vertices, any sequence of up to NE insertions (self edges and repeats included), any weights"),
]
STATEMENT = """After any sequence of edge insertions an adjacency-matrix graph and an adjacency-list graph both describe exactly the undirected edges inserted:
each edge is present in both directions with the weight given last, inserted pairs are counted once, edges from a vertex to itself are
ignored, and all other pairs are absent. Freeing a graph releases everything it holds once."""
QUANT = (["histories","inputs"], "all insertion sequences within the bounds, all weights")
WHY = "tests only build a fully connected graph; repeated, self and partial insertions are not covered"
FILES = ["src/nx_graph.c", "src/nx_mat.c"]
MECH = [("insertion", "src/nx_graph.c: nx_graph_insert_adj_mat, nx_graph_insert_adj_lst")]
