"""Static analyser for numbakit-ode: source -> gated value graph -> queries."""
