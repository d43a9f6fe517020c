"""Static analysis of pure-predict: value graphs, effects and ownership from the source text."""
