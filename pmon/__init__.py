"""Runtime monitors for pympc: workloads, instrumentation and oracles."""
