package mc;

import java.util.Calendar;
import java.util.Set;
import java.util.concurrent.ConcurrentMap;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.Future;
import java.util.concurrent.Semaphore;
import java.util.concurrent.locks.Condition;
import java.util.concurrent.locks.Lock;

/** Called by the instrumented code. Does nothing on threads the explorer does not control. */
public final class Hooks {
    private static Exec.T me() { return Thread.currentThread() instanceof Exec.T t && !t.exec.dead ? t : check(); }
    private static Exec.T check() {
        if (Thread.currentThread() instanceof Exec.T t && t.exec.dead) throw new Exec.Abort();
        return null;
    }

    // ---- memory ---------------------------------------------------------------------------------

    private static long loc(Object o, int field) { return ((long) System.identityHashCode(o) << 24) ^ field; }
    public static void sread(int id) { Exec.T t = me(); if (t != null) t.exec.access(t, id, id, false); }
    public static void swrite(int id) { Exec.T t = me(); if (t != null) t.exec.access(t, id, id, true); }
    public static void read(Object o, int id) { Exec.T t = me(); if (t != null) t.exec.access(t, loc(o, id), id, false); }
    public static void write(Object o, int id) { Exec.T t = me(); if (t != null) t.exec.access(t, loc(o, id), id, true); }
    private static final int ELEMENT = Instr.field("array element"), CALL = Instr.field("object of a library"), SYNC = Instr.field("lock");
    public static void aread(Object a, int i) { Exec.T t = me(); if (t != null && a != null) t.exec.access(t, loc(a, ELEMENT) * 31 + i, ELEMENT, false); }
    private static void awrite(Object a, int i) { Exec.T t = me(); if (t != null && a != null) t.exec.access(t, loc(a, ELEMENT) * 31 + i, ELEMENT, true); }
    public static void astore(Object[] a, int i, Object v) { awrite(a, i); a[i] = v; }
    public static void astore(int[] a, int i, int v) { awrite(a, i); a[i] = v; }
    public static void astore(long[] a, int i, long v) { awrite(a, i); a[i] = v; }
    public static void astore(float[] a, int i, float v) { awrite(a, i); a[i] = v; }
    public static void astore(double[] a, int i, double v) { awrite(a, i); a[i] = v; }
    public static void bstore(Object a, int i, int v) { awrite(a, i); if (a instanceof boolean[] b) b[i] = (v & 1) != 0; else ((byte[]) a)[i] = (byte) v; }
    public static void cstore(char[] a, int i, int v) { awrite(a, i); a[i] = (char) v; }
    public static void cstore(short[] a, int i, int v) { awrite(a, i); a[i] = (short) v; }

    /** hash codes that do not depend on where an object happens to lie */
    private static final ClassValue<Boolean> IDENTITY = new ClassValue<>() {
        @Override protected Boolean computeValue(Class<?> c) { try { Class<?> d = c.getMethod("hashCode").getDeclaringClass(); return d == Object.class || d == Enum.class; } catch (Exception e) { return false; } }
    };
    public static int hash(Object o) { return IDENTITY.get(o.getClass()) ? idHash(o) : o.hashCode(); }
    public static int idHash(Object o) { return o == null ? 0 : o instanceof Enum<?> e ? e.name().hashCode() : o instanceof Class<?> c ? c.getName().hashCode() : o.getClass().getName().hashCode(); }

    // ---- monitors, class initialisation ---------------------------------------------------------

    public static void lock(Object o) { if (o == null) throw new NullPointerException(); Exec.T t = me(); if (t != null) t.exec.lock(t, o, loc(o, SYNC), SYNC); }
    public static void unlock(Object o) { Exec.T t = me(); if (t != null) t.exec.unlock(t, o); }
    public static void waitOn(Object o) { Exec.T t = me(); if (t != null) t.exec.waitOn(t, o, loc(o, SYNC), SYNC); }
    public static void wake(Object o) { Exec.T t = me(); if (t != null) t.exec.wake(t, o, loc(o, SYNC), SYNC); }
    public static void yieldPoint() { Exec.T t = me(); if (t != null) t.exec.yieldNow(t); }
    public static void initEnter(int cls) { Exec.T t = me(); if (t != null) t.exec.initEnter(t, cls); }
    public static void initExit(int cls) { Exec.T t = me(); if (t != null) t.exec.initExit(t, cls); }
    public static void use(int cls) { Exec.T t = me(); if (t != null && t.exec.anyInit) t.exec.use(t, cls); }

    // ---- objects of libraries -------------------------------------------------------------------

    private enum K { NONE, PLAIN, MAP, LOCK, UNSAFE, WALKER, PERMITS, LATCH, FUTURE }
    private static final ClassValue<K> KIND = new ClassValue<>() {
        @Override protected K computeValue(Class<?> c) {
            String n = c.getName();
            if (org.antlr.v4.runtime.Recognizer.class.isAssignableFrom(c)) return K.PLAIN;
            if (n.startsWith("mcu.") || n.startsWith("com.github.sidhant92.") && (c.getSuperclass() == Object.class || c.getSuperclass() == null || c.isEnum()) || n.startsWith("java.util.ImmutableCollections") || n.startsWith("java.util.regex.Pattern") || n.startsWith("java.util.Optional")) return K.NONE;
            if (Lock.class.isAssignableFrom(c)) return K.LOCK;
            if (Semaphore.class.isAssignableFrom(c)) return K.PERMITS;
            if (CountDownLatch.class.isAssignableFrom(c)) return K.LATCH;
            if (Future.class.isAssignableFrom(c)) return K.FUTURE;
            if (ConcurrentMap.class.isAssignableFrom(c) || n.startsWith("com.github.benmanes.caffeine.cache.") && !n.endsWith("Caffeine")) return K.MAP;
            if (java.text.Format.class.isAssignableFrom(c) || Calendar.class.isAssignableFrom(c) || java.util.regex.Matcher.class.isAssignableFrom(c) || java.util.Scanner.class.isAssignableFrom(c)) return K.UNSAFE;
            if (n.endsWith("ParseTreeWalker")) return K.WALKER;
            return K.PLAIN;
        }
    };
    private static final Set<String> READS = Set.of("get", "size", "isEmpty", "contains", "containsKey", "containsValue", "containsAll", "iterator", "listIterator", "stream", "parallelStream", "spliterator", "forEach", "entrySet", "keySet", "values", "hashCode", "equals", "toString", "toArray", "indexOf", "lastIndexOf", "peek", "peekFirst", "peekLast", "getFirst", "getLast", "getOrDefault", "length", "charAt", "hasNext", "getIfPresent", "asMap", "estimatedSize", "stats", "floorEntry", "ceilingEntry", "firstKey", "lastKey", "first", "last", "element", "subList", "headMap", "tailMap", "comparator", "mappingCount", "isShutdown", "getText", "getStart", "getStop", "getSymbol", "getChild", "getChildCount", "getType", "getParent");
    private static final Set<String> WHOLE = Set.of("clear", "size", "isEmpty", "values", "keySet", "entrySet", "forEach", "cleanUp", "invalidateAll", "stats", "estimatedSize", "replaceAll", "containsValue", "putAll", "getAll", "hashCode", "equals", "toString");

    /** a bin of a concurrent map: what a computation on one of its keys locks */
    static final class Bin {
        private final int map, bin; private final Object on;
        Bin(int map, int bin, Object on) { this.map = map; this.bin = bin; this.on = on; }
        int map() { return map; }
        Object on() { return on; }
        @Override public boolean equals(Object o) { return o instanceof Bin b && b.map == map && b.bin == bin; }
        @Override public int hashCode() { return map * 31 + bin; }
    }

    /** announces a call on a library object; the token is given back to exit */
    public static Object enter(Object r, String name, Object arg, int args) {
        Exec.T t = me();
        if (t == null || r == null) return null;
        switch (KIND.get(r.getClass())) {
            case NONE: return null;
            case WALKER: return null;
            case LOCK: {
                Lock l = (Lock) r;
                if (name.startsWith("lock") || name.equals("tryLock")) {
                    t.exec.access(t, loc(l, SYNC), SYNC, true);
                    if (name.startsWith("lock")) t.exec.await(t, () -> { if (!l.tryLock()) return false; l.unlock(); return true; }, r);
                } else if (name.equals("unlock")) t.exec.access(t, loc(l, SYNC), SYNC, true);
                return null;
            }
            case PERMITS: { Semaphore s = (Semaphore) r; t.exec.access(t, loc(s, SYNC), SYNC, true); if (name.startsWith("acquire")) t.exec.await(t, () -> s.availablePermits() > 0, r); return null; }
            case LATCH: { CountDownLatch s = (CountDownLatch) r; t.exec.access(t, loc(s, SYNC), SYNC, true); if (name.equals("await")) t.exec.await(t, () -> s.getCount() == 0, r); return null; }
            case FUTURE: { Future<?> s = (Future<?>) r; t.exec.access(t, loc(s, SYNC), SYNC, true); if (name.equals("get") || name.equals("join")) t.exec.await(t, s::isDone, r); return null; }
            case UNSAFE: {
                // entered, but not yet done: another thread may come in meanwhile
                t.exec.enterUnsafe(t, r, name);
                t.exec.access(t, loc(r, CALL), CALL, true);
                return r;
            }
            case MAP: {
                boolean read = READS.contains(name) && args <= 1;
                if (name.equals("policy") || name.equals("asMap")) return null;
                if (WHOLE.contains(name) || args == 0) { t.exec.access(t, loc(r, CALL), CALL, !read); if (!read) t.exec.await(t, () -> !t.exec.anyBin(System.identityHashCode(r), t), r); return null; }
                int h = arg == null ? 0 : hash(arg);
                h ^= h >>> 16;
                int bin = h & 15;
                t.exec.access(t, loc(r, CALL) * 31 + bin, CALL, !read);
                if (read) return null;
                t.exec.touch(t, loc(r, CALL), CALL);
                Bin b = new Bin(System.identityHashCode(r), bin, r);
                t.exec.lock(t, b, loc(r, CALL) * 31 + bin, CALL);
                return b;
            }
            default:
                t.exec.access(t, loc(r, CALL), CALL, !READS.contains(name));
                return null;
        }
    }
    public static void exit(Object token) {
        if (token == null) return;
        Exec.T t = Thread.currentThread() instanceof Exec.T x ? x : null;
        if (t == null || t.exec.dead) return;
        if (token instanceof Bin b) { t.exec.unlock(t, token); if (t.exec.eager && b.on() instanceof com.github.benmanes.caffeine.cache.Cache<?, ?> k) k.cleanUp(); } else t.exec.exitUnsafe(t, token);
    }
}
