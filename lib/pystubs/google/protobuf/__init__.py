"""Stand-in for the protobuf runtime: just enough to run generated code, written from the
Protobuf specification. Messages come from the descriptor embedded in the generated code."""
