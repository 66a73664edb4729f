"""Static analysis of pygfunction: gated value graph and the rules stated on it."""
