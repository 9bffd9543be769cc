package mc;

import java.util.ArrayList;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.function.Consumer;
import java.util.function.IntFunction;

/** Enumeration helpers. */
final class G {
    /** data of the caller */
    static Map<String, Object> data(Object... kv) {
        Map<String, Object> m = new LinkedHashMap<>();
        for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]);
        return m;
    }
    static Map<String, Object> with(Map<String, Object> base, Object... kv) {
        Map<String, Object> m = new LinkedHashMap<>(base);
        for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]);
        return m;
    }

    /** all vectors of length n over 0..radix-1, in counting order */
    static void vectors(int n, int radix, Consumer<int[]> f) {
        int[] v = new int[n];
        while (true) {
            f.accept(v);
            int i = n - 1;
            while (i >= 0 && ++v[i] == radix) v[i--] = 0;
            if (i < 0) return;
        }
    }
    /** all vectors with the given radices */
    static void mixed(int[] radix, Consumer<int[]> f) {
        for (int r : radix) if (r == 0) return;
        int[] v = new int[radix.length];
        while (true) {
            f.accept(v);
            int i = v.length - 1;
            while (i >= 0 && ++v[i] == radix[i]) v[i--] = 0;
            if (i < 0) return;
        }
    }
    private static final int[] LIMITS = {4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 250, 255, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536};
    /** sizes round every limit up to max: where size thresholds are likely to sit */
    static int[] sizes(int max) {
        java.util.TreeSet<Integer> r = new java.util.TreeSet<>();
        for (int l : LIMITS) for (int k = -1; k <= 1; k++) if (l + k <= max) r.add(l + k);
        return r.stream().mapToInt(i -> i).toArray();
    }
    /** places in a list of n: the ends, the middle, and round every limit, counted from either end */
    static int[] places(int n) {
        java.util.TreeSet<Integer> r = new java.util.TreeSet<>();
        for (int p : new int[]{0, 1, n / 2, n - 2, n - 1}) if (p >= 0 && p < n) r.add(p);
        for (int l : LIMITS) for (int k = -1; k <= 1; k++) { if (l + k < n) r.add(l + k); if (n - l + k >= 0 && n - l + k < n && n <= 600) r.add(n - l + k); }
        return r.stream().mapToInt(i -> i).toArray();
    }

    /** all bit masks over n bits with at most k set, few bits first */
    static List<Integer> masks(int n, int k) {
        List<Integer> r = new ArrayList<>();
        for (int w = 0; w <= k; w++) for (int m = 0; m < 1 << n; m++) if (Integer.bitCount(m) == w) r.add(m);
        return r;
    }

    /** shapes of binary trees with n leaves: null is a leaf, {l, r} an inner node */
    static List<Object[]> shapes(int n) {
        if (n == 1) return Collections.singletonList(null);
        List<Object[]> r = new ArrayList<>();
        for (int i = 1; i < n; i++) for (Object[] a : shapes(i)) for (Object[] b : shapes(n - i)) r.add(new Object[]{a, b});
        return r;
    }

    /** builds a logical tree: leaves in order, one bit of ops per inner node, one bit of nots per node (preorder) */
    static E tree(Object[] shape, IntFunction<E> leaf, int ops, int nots) {
        return new Builder(leaf, ops, nots).build(shape);
    }
    private static final class Builder {
        final IntFunction<E> leaf; int ops, nots, next;
        Builder(IntFunction<E> leaf, int ops, int nots) { this.leaf = leaf; this.ops = ops; this.nots = nots; }
        E build(Object[] s) {
            boolean not = (nots & 1) != 0;
            nots >>= 1;
            E r;
            if (s == null) r = leaf.apply(next++);
            else {
                boolean and = (ops & 1) != 0;
                ops >>= 1;
                E l = build((Object[]) s[0]), x = build((Object[]) s[1]);
                r = and ? E.and(l, x) : E.or(l, x);
            }
            return not ? E.not(r) : r;
        }
    }
    /** builds a binary arithmetic tree */
    static E arith(Object[] shape, IntFunction<E> leaf, IntFunction<Character> op) {
        int[] n = new int[2];
        return arith(shape, leaf, op, n);
    }
    private static E arith(Object[] s, IntFunction<E> leaf, IntFunction<Character> op, int[] n) {
        if (s == null) return leaf.apply(n[0]++);
        char o = op.apply(n[1]++);
        E l = arith((Object[]) s[0], leaf, op, n);
        return E.bin(o, l, arith((Object[]) s[1], leaf, op, n));
    }

    static <T> T last(List<T> l) { return l.get(l.size() - 1); }
    static String repeat(String s, int n) { return s.repeat(n); }
}
