package mc;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.locks.LockSupport;
import java.util.function.BooleanSupplier;

/** One execution of a few threads under a given schedule: one thread runs at a time, switches happen where the schedule says. */
final class Exec {
    /** ends the threads of an execution that is given up */
    static final class Abort extends ThreadDeath { @Override public synchronized Throwable fillInStackTrace() { return this; } }

    static final class T extends Thread {
        final Exec exec; final int id; final Runnable body;
        volatile boolean done, started, outside;   // outside: blocked in something the explorer does not see
        BooleanSupplier waiting; Object waitingFor;
        long run;                                   // steps since it got the turn
        Throwable failed;
        T(Exec e, int id, Runnable body) { super(null, null, "t" + id, 16L << 20); exec = e; this.id = id; this.body = body; setDaemon(true); }
        @Override public void run() {
            started = true;
            exec.park(this);
            try { if (!exec.dead) body.run(); } catch (Abort a) { /* given up */ } catch (Throwable x) { failed = x; }
            exec.finished(this);
        }
    }

    static final long FAIR = 400_000, LIMIT = 6_000_000;

    // the schedule: at step at[i] run thread to[i]
    final int[] at, to;
    private int next;
    private T[] ts;
    volatile T current;
    volatile boolean dead;
    volatile boolean complete;
    boolean anyInit, eager;   // eager: caches evict at once instead of never
    static final int INIT = Instr.field("class initialisation");
    private final java.util.Set<Long> used = new java.util.HashSet<>();
    String problem;
    private final Thread owner = Thread.currentThread();

    // the trace
    int steps;
    long[] loc = new long[4096];
    int[] info = new int[4096];      // field << 8 | enabled others mask << 4 ... see put
    byte[] who = new byte[4096];     // thread | write << 4 | choice << 5 | recorded-only << 6
    byte[] can = new byte[4096];     // mask of threads that could have run instead
    private final Map<Object, Owner> locks = new HashMap<>();
    private final IdentityHashMap<Object, Owner> monitors = new IdentityHashMap<>();
    private final Map<Integer, Owner> inits = new HashMap<>();
    private final IdentityHashMap<Object, int[]> waiters = new IdentityHashMap<>();
    private final IdentityHashMap<Object, List<T>> unsafe = new IdentityHashMap<>();
    private static final java.lang.management.ThreadMXBean CPU = java.lang.management.ManagementFactory.getThreadMXBean();
    private static final class Owner { T t; int n; }

    Exec(int[] at, int[] to) { this.at = at; this.to = to; }

    /** runs the bodies to their end; the caller is not a controlled thread */
    void run(Runnable... bodies) {
        ts = new T[bodies.length];
        for (int i = 0; i < bodies.length; i++) { ts[i] = new T(this, i, bodies[i]); ts[i].start(); }
        int first = 0;
        put(0, 0, null, false, true, (1 << bodies.length) - 1);
        if (next < at.length && at[next] == 0) first = to[next++];
        current = ts[first];
        LockSupport.unpark(current);
        long lastSteps = -1, cpu = 0; int idle = 0, still = 0;
        long hard = System.nanoTime();
        while (!complete) {
            LockSupport.parkNanos(20_000_000L);
            if (complete) break;
            T c = current;
            if (steps != lastSteps) { lastSteps = steps; idle = 0; continue; }
            if (c == null) continue;
            Thread.State s = c.getState();
            boolean stuck = s == Thread.State.BLOCKED || s == Thread.State.WAITING || s == Thread.State.TIMED_WAITING;
            idle++;
            // waiting for another thread's class initialisation counts as running, but takes no time of a processor
            long now = stuck || idle < 3 ? -1 : CPU.getThreadCpuTime(c.threadId());
            still = now >= 0 && now == cpu ? still + 1 : 0;
            cpu = now;
            if (c.done || !stuck && idle < 150 && still < 12 || idle < 3) continue;
            // the running thread does not get on: blocked on something outside the explorer's control
            synchronized (this) {
                if (steps != lastSteps || current != c || complete) continue;
                c.outside = true;
                T n = pick(c, false);
                if (n == null) { problem = "no call returns: " + state(); giveUp(); break; }
                turn(n);
            }
        }
        if (dead) for (T t : ts) { LockSupport.unpark(t); }
        for (T t : ts) try { t.join(dead ? 300 : 10_000); } catch (InterruptedException e) { throw new RuntimeException(e); }
        for (T t : ts) if (t.failed != null && problem == null) problem = "thread " + t.id + " died of " + t.failed;
    }

    private String state() {
        StringBuilder b = new StringBuilder();
        for (T t : ts) b.append(b.length() == 0 ? "" : ", ").append("thread ").append(t.id).append(t.done ? " finished" : t.waiting != null ? " waits for " + name(t.waitingFor) : t.outside ? " is blocked" : " is ready");
        return b.toString();
    }
    private static String name(Object o) { return o == null ? "?" : o instanceof Integer i ? "the initialisation of " + Instr.CLASSES.get(i) : o instanceof Hooks.Bin ? "an entry of a concurrent map" : "a lock (" + o.getClass().getName() + ")"; }

    private void giveUp() { dead = true; complete = true; current = null; for (T t : ts) LockSupport.unpark(t); LockSupport.unpark(owner); }

    // ---- turns ----------------------------------------------------------------------------------

    private void park(T t) {
        while (current != t && !dead) { LockSupport.park(this); }
        if (dead) throw new Abort();
    }
    private void turn(T n) { n.run = 0; current = n; LockSupport.unpark(n); }

    private int enabled(T except) {
        int m = 0;
        for (T t : ts) if (t != except && !t.done && !t.outside && (t.waiting == null || t.waiting.getAsBoolean())) m |= 1 << t.id;
        return m;
    }
    /** a thread to go on with when t cannot: a choice point */
    private T pick(T t, boolean self) {
        int m = enabled(t);
        if (m == 0) return null;
        int step = put(0, 0, t, false, true, m);
        T n = ts[Integer.numberOfTrailingZeros(m)];
        // fairness: go round
        for (int k = 1; k <= ts.length; k++) { int i = (t.id + k) % ts.length; if ((m >> i & 1) == 1) { n = ts[i]; break; } }
        if (next < at.length && at[next] == step) { int x = to[next++]; if ((m >> x & 1) == 1) n = ts[x]; else diverged = true; }
        return n;
    }
    boolean diverged;

    void finished(T t) {
        synchronized (this) {
            t.done = true;
            if (dead) return;
            if (current != t) return;   // it was blocked outside and came to its end meanwhile
            T n = pick(t, false);
            if (n != null) { turn(n); return; }
            for (T x : ts) if (!x.done) {
                if (x.outside) { current = x; LockSupport.unpark(x); return; }
                problem = "no call returns: " + state();
                giveUp();
                return;
            }
            complete = true;
            LockSupport.unpark(owner);
        }
    }

    private int put(long l, int field, T t, boolean write, boolean choice, int mask) {
        int i = steps;
        if (i == loc.length) { int n = i * 2; loc = Arrays.copyOf(loc, n); info = Arrays.copyOf(info, n); who = Arrays.copyOf(who, n); can = Arrays.copyOf(can, n); }
        loc[i] = l; info[i] = field; who[i] = (byte) ((t == null ? 0 : t.id) | (write ? 16 : 0) | (choice ? 32 : 0)); can[i] = (byte) mask;
        steps = i + 1;
        return i;
    }

    /** back from something the explorer did not see: wait for a turn */
    private void rejoin(T t) {
        if (t.outside) { t.outside = false; if (current != t) { synchronized (this) { if (current == null || current.done) current = t; } park(t); } }
        else if (current != t) park(t);
    }

    void access(T t, long l, int field, boolean write) {
        if (current != t) rejoin(t);
        int m = 0;
        for (T x : ts) if (x != t && !x.done && !x.outside && (x.waiting == null || x.waiting.getAsBoolean())) m |= 1 << x.id;
        int step = put(l, field, t, write, false, m);
        if (steps > LIMIT) { problem = "a call does not come to an end: " + state(); giveUp(); throw new Abort(); }
        if (next < at.length && at[next] == step) {
            int x = to[next++];
            T n = ts[x];
            if (n == t || n.done || n.outside || n.waiting != null && !n.waiting.getAsBoolean()) { diverged = true; return; }
            turn(n);
            park(t);
        } else if (++t.run > FAIR) yieldNow(t);
    }
    /** an access that is noted but at which no switch is made */
    void touch(T t, long l, int field) { put(l, field, t, true, false, 0); who[steps - 1] |= 64; }

    /** between two calls of a thread: the others may go on, at no cost */
    void boundary(T t) {
        if (current != t) rejoin(t);
        int m = enabled(t);
        if (m == 0) return;
        int step = put(0, 0, t, false, true, m);
        if (next < at.length && at[next] == step) {
            int x = to[next++];
            if ((m >> x & 1) == 0) { diverged = true; return; }
            turn(ts[x]);
            park(t);
        }
    }

    void yieldNow(T t) {
        if (current != t) rejoin(t);
        t.run = 0;
        T n = pick(t, false);
        if (n == null) return;
        turn(n);
        park(t);
    }

    void await(T t, BooleanSupplier ready, Object what) {
        while (!ready.getAsBoolean()) {
            t.waiting = ready; t.waitingFor = what;
            T n = pick(t, false);
            if (n == null) {
                boolean out = false;
                for (T x : ts) if (x.outside && !x.done) out = true;
                if (!out) { problem = "no call returns: " + state(); giveUp(); throw new Abort(); }
                n = null; current = null;
                while (!dead && !ready.getAsBoolean()) LockSupport.parkNanos(1_000_000);
                current = t;
            } else { turn(n); park(t); }
            t.waiting = null; t.waitingFor = null;
        }
    }

    // ---- locks ----------------------------------------------------------------------------------

    private Owner owner(Object o) { return o instanceof Hooks.Bin ? locks.computeIfAbsent(o, k -> new Owner()) : monitors.computeIfAbsent(o, k -> new Owner()); }
    void lock(T t, Object o, long l, int field) {
        if (!(o instanceof Hooks.Bin)) access(t, l, field, true);
        Owner w = owner(o);
        await(t, () -> w.n == 0 || w.t == t, o);
        w.t = t; w.n++;
    }
    void unlock(T t, Object o) {
        Owner w = owner(o);
        if (w.t == t && --w.n == 0) w.t = null;
    }
    boolean anyBin(int map, T t) {
        for (Map.Entry<Object, Owner> e : locks.entrySet()) if (e.getKey() instanceof Hooks.Bin b && b.map() == map && e.getValue().n > 0 && e.getValue().t != t) return true;
        return false;
    }
    void waitOn(T t, Object o, long l, int field) {
        Owner w = owner(o);
        int n = w.n;
        int[] epoch = waiters.computeIfAbsent(o, k -> new int[1]);
        int e = epoch[0];
        w.n = 0; w.t = null;
        await(t, () -> epoch[0] != e, o);
        await(t, () -> w.n == 0, o);
        w.t = t; w.n = n;
    }
    void wake(T t, Object o, long l, int field) { access(t, l, field, true); waiters.computeIfAbsent(o, k -> new int[1])[0]++; }

    void initEnter(T t, int cls) {
        if (current != t) rejoin(t);
        Owner w = inits.computeIfAbsent(cls, k -> new Owner());
        w.t = t; w.n = 1; anyInit = true;
        access(t, 0x5000000000L + cls, INIT, true);
    }
    void initExit(T t, int cls) { Owner w = inits.get(cls); if (w != null) { w.t = null; w.n = 0; } }
    void use(T t, int cls) {
        if (current != t) rejoin(t);
        Owner w = inits.get(cls);
        if (w == null || w.t == t || !used.add(cls * 8L + t.id)) return;
        access(t, 0x5000000000L + cls, INIT, false);
        if (w.n == 0) return;
        await(t, () -> w.n == 0 || w.t == t, cls);
    }

    void enterUnsafe(T t, Object r, String name) {
        if (current != t) rejoin(t);
        List<T> l = unsafe.computeIfAbsent(r, k -> new ArrayList<>());
        for (T x : l) if (x != t && problem == null) problem = "two threads are inside the same " + r.getClass().getName() + " (" + name + "), which is not thread-safe";
        l.add(t);
    }
    void exitUnsafe(T t, Object r) { List<T> l = unsafe.get(r); if (l != null) l.remove(t); }
}
