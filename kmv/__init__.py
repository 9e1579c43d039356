"""Runtime monitors for kernelmethods."""
