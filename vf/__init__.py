"""Runtime-monitoring harness for dascore (see DESIGN.md)."""
