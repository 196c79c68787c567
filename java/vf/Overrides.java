package vf;

import tlc2.overrides.ITLCOverrides;

/**
 * Registered with -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.Overrides.
 * -Dvf.level: "hash" = only the hash functions, "all" (default) = also chains and trees.
 */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        if ("hash".equals(System.getProperty("vf.level"))) return new Class[] { HashOverrides.class };
        return new Class[] { HashOverrides.class, SphincsOverrides.class };
    }
}
