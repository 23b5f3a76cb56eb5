package taspec;

import tlc2.overrides.ITLCOverrides;

public final class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] {NumOps.class}; }
}
