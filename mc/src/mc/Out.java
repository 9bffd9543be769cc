package mc;

/** What the reference model says about one evaluation. */
record Out(Kind kind, V v) {
    enum Kind { VAL, FAIL, VAL_OR_FAIL, ANY }

    static final Out FAIL = new Out(Kind.FAIL, null);
    static final Out ANY = new Out(Kind.ANY, null);
    static final Out TRUE = val(V.bool(true));
    static final Out FALSE = val(V.bool(false));

    static Out val(V v) { return new Out(Kind.VAL, v); }
    static Out of(boolean b) { return b ? TRUE : FALSE; }
    static Out orFail(V v) { return new Out(Kind.VAL_OR_FAIL, v); }

    boolean isFail() { return kind == Kind.FAIL; }
    boolean isAny() { return kind == Kind.ANY; }
    boolean isVal() { return kind == Kind.VAL; }
    boolean hasVal() { return v != null; }
    boolean truth() { return (Boolean) v.v; }
    /** weaken: this outcome, or a failure */
    Out weak() { return kind == Kind.VAL ? orFail(v) : this; }

    @Override public String toString() {
        return switch (kind) { case VAL -> "value " + v; case FAIL -> "failure"; case VAL_OR_FAIL -> "value " + v + " or failure"; case ANY -> "anything"; };
    }
}
