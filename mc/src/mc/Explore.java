package mc;

import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.LinkedBlockingDeque;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicLong;

/** Explores the interleavings of scenarios on the real code, up to a number of preemptions. */
final class Explore {
    /** one call of a thread; entry as in Work.call, or -1: construct an instance of kind text for the thread's own use */
    record Call(int entry, String text, Map<String, Object> data, String def) {
        @Override public String toString() { return entry < 0 ? "new " + text : new String[]{"parse ", "parse ", "boolean ", "boolean ", "arithmetic "}[entry] + Replay.lit(text) + (entry == 1 || entry == 3 ? " default " + (def == null ? "null" : Replay.lit(def)) : ""); }
    }
    /** threads with their calls, on instances shared by all (made before) or made by the threads themselves */
    record Scenario(String name, String shared, boolean cold, Call[][] threads, int bound) {
        /** switches between the calls of a thread are no preemptions */
        boolean free() { return name.startsWith("free-"); }
        @Override public String toString() {
            StringBuilder b = new StringBuilder(name).append(": shared ").append(shared == null ? "nothing" : shared).append(cold ? ", first use in the process" : "");
            for (int i = 0; i < threads.length; i++) b.append("; thread ").append(i).append(": ").append(Arrays.toString(threads[i]));
            return b.toString();
        }
    }
    private record Task(Scenario s, int[] at, int[] to, int preemptions, int expectField, AtomicLong count) {}

    private final Ck c;
    private final Instr instr;
    private final Path harness;
    private final Map<String, String> alone = new java.util.concurrent.ConcurrentHashMap<>();
    private final LinkedBlockingDeque<Task> tasks = new LinkedBlockingDeque<>();
    private final AtomicLong open = new AtomicLong(), executions = new AtomicLong(), steps = new AtomicLong(), points = new AtomicLong(), diverged = new AtomicLong(), truncated = new AtomicLong(), unconfirmed = new AtomicLong(), scenarios = new AtomicLong(), maxSteps = new AtomicLong();
    private final Map<String, AtomicLong> shared = new java.util.concurrent.ConcurrentHashMap<>();
    private long allPoints, allSteps, allExecutions;
    long cap = 200_000;
    /** a run gives up half of what is left of this; only a tree with far more shared state than this one comes near */
    private final long end;
    private volatile long runEnd; private volatile boolean found; private final AtomicLong dropped = new AtomicLong();

    Explore(Ck c) {
        this.c = c;
        end = System.nanoTime() + (c.quick ? 540 : 10_800) * 1_000_000_000L;
        if (c.quick) cap = 30_000;
        Path root = Path.of(System.getProperty("mc.classes"));
        harness = root.resolve("mc");
        this.alones = ThreadLocal.withInitial(() -> new CLoader(instr(), harness()).work());
        try {
            boolean copies = new Instr(root.resolve("repo"), true).copiesPossible();
            instr = new Instr(root.resolve("repo"), copies);
            c.extra.put("java_util_collections_instrumented", copies);
        } catch (java.io.IOException e) { throw new IllegalStateException(e); }
    }

    /** a copy of the code under test that has made every call of the scenario before */
    private static final class Warm { Work work; final java.util.Set<String> done = new java.util.HashSet<>(); }
    private final ThreadLocal<Warm> warm = ThreadLocal.withInitial(Warm::new);
    private Work work(Scenario s) {
        if (s.cold()) {
            Work w = new CLoader(instr, harness).work();
            if (s.free()) { Object p = w.make("parser"); for (Call[] ks : s.threads()) for (Call k : ks) if (k.entry() >= 0) w.call(p, 0, k.text(), null, null, new Object[1]); }
            return w;
        }
        Warm m = warm.get();
        if (m.work == null || m.done.size() > 400) { m.work = new CLoader(instr, harness).work(); m.done.clear(); m.work.make("plain"); m.work.make("cache:1"); }
        for (Call[] ks : s.threads()) for (Call k : ks) for (String kind : s.shared() == null ? new String[]{"plain"} : new String[]{"plain", s.shared()})
            if (k.entry() >= 0 && m.done.add(key(k) + kind)) for (int i = 0; i < 2; i++) m.work.call(m.work.make(kind), k.entry(), k.text(), k.data(), k.def(), new Object[1]);
        return m.work;
    }
    private static String key(Call k) { return k.entry() + "|" + k.text() + "|" + k.def() + "|" + System.identityHashCode(k.data()); }

    /** what a call gives alone, on an instance of its own in a process of its own */
    private String alone(Call k) {
        return alone.computeIfAbsent(key(k), x -> { Work w = alones.get(); Object i = w.make("plain"); return w.call(i, k.entry(), k.text(), k.data(), k.def(), new Object[1]); });
    }
    private final ThreadLocal<Work> alones;
    private Instr instr() { return instr; }
    private Path harness() { return harness; }

    /** name and schedule of the one execution to run, when a counterexample is replayed */
    static String[] wanted;
    void add(Scenario s) {
        if (wanted != null) {
            if (s.name().equals(wanted[0])) { System.out.println(s + "\n" + replay(s, wanted[1])); throw new Ck.Stop(); }
            return;
        }
        c.scenario();
        open.incrementAndGet();
        scenarios.incrementAndGet();
        tasks.addFirst(new Task(s, new int[0], new int[0], 0, -1, new AtomicLong()));
    }

    /** explores everything added */
    void run() {
        if (open.get() == 0) return;
        if (found) { tasks.clear(); open.set(0); return; }
        runEnd = (System.nanoTime() + end) / 2;
        Thread[] ws = new Thread[Ck.THREADS];
        Throwable[] err = new Throwable[1];
        for (int i = 0; i < ws.length; i++) {
            ws[i] = new Thread(() -> {
                try {
                    while (open.get() > 0 && !c.stopped() && err[0] == null) {
                        Task t = tasks.pollFirst(20, TimeUnit.MILLISECONDS);
                        if (t == null) continue;
                        if (System.nanoTime() > runEnd) { dropped.incrementAndGet(); open.decrementAndGet(); continue; }
                        try { explore(t); } finally { open.decrementAndGet(); }
                    }
                } catch (Throwable e) { err[0] = e; }
            });
            ws[i].start();
        }
        for (Thread w : ws) try { w.join(); } catch (InterruptedException e) { throw new RuntimeException(e); }
        if (err[0] != null) throw new RuntimeException(err[0]);
        tasks.clear(); open.set(0);
        Map<String, Object> m = new LinkedHashMap<>();
        allPoints += points.get(); allSteps += steps.get(); allExecutions += executions.get();
        m.put("scenarios", scenarios.get()); m.put("schedules", allExecutions); m.put("steps", allSteps); m.put("longest_execution_steps", maxSteps.get()); m.put("scheduling_points_visited", allPoints);
        m.put("diverged_replays", diverged.get()); m.put("scenarios_cut_at_" + cap + "_schedules", truncated.get()); m.put("schedules_left_for_lack_of_time", dropped.get()); m.put("unconfirmed_reports", unconfirmed.get());
        Map<String, Object> sh = new TreeMap<>();
        shared.forEach((k, v) -> sh.put(k, v.get()));
        m.put("conflicting_locations", sh);
        c.extra.put("interleavings", m);
        c.interleavings(points.getAndSet(0), steps.getAndSet(0), executions.getAndSet(0));
    }

    /** the outcome of one execution: null, or what is wrong */
    private String execute(Scenario s, Exec e) {
        Work w = work(s);
        e.eager = s.shared() != null && s.shared().endsWith("!");
        Object inst = s.shared() == null ? null : w.make(s.shared());
        int n = s.threads().length;
        String[][] got = new String[n][];
        Object[][][] kept = new Object[n][][];
        Runnable[] bodies = new Runnable[n];
        for (int i = 0; i < n; i++) {
            Call[] ks = s.threads()[i];
            got[i] = new String[ks.length];
            kept[i] = new Object[ks.length][1];
            int id = i;
            bodies[i] = () -> {
                Object own = inst;
                for (int k = 0; k < ks.length; k++) {
                    if (k > 0 && id > 0 && s.free()) e.boundary((Exec.T) Thread.currentThread());
                    if (ks[k].entry() < 0) {
                        try { own = w.make(ks[k].text()); got[id][k] = "made"; } catch (ThreadDeath x) { throw x; } catch (Throwable x) { got[id][k] = "EXCEPTION thrown to the caller: " + x; }
                    } else got[id][k] = w.call(own, ks[k].entry(), ks[k].text(), ks[k].data(), ks[k].def(), kept[id][k]);
                }
            };
        }
        e.run(bodies);
        if (e.problem != null) { warm.get().work = null; return e.problem; }
        for (int i = 0; i < n; i++) for (int k = 0; k < got[i].length; k++) {
            Call x = s.threads()[i][k];
            String want = x.entry() < 0 ? "made" : alone(x);
            if (!want.equals(got[i][k])) return "thread " + i + ", " + x + ": " + got[i][k] + " -- alone: " + want;
            if (kept[i][k][0] != null) { String again = w.again(kept[i][k][0]); if (!again.equals(want)) return "thread " + i + ", the tree of " + x + " changed after it was returned: " + again + " -- alone: " + want; }
        }
        return null;
    }

    private void explore(Task t) {
        if (t.count().incrementAndGet() > cap) { if (t.count().get() == cap + 1) truncated.incrementAndGet(); return; }
        Exec e = new Exec(t.at(), t.to());
        String bad = execute(t.s(), e);
        executions.incrementAndGet();
        steps.addAndGet(e.steps);
        maxSteps.accumulateAndGet(e.steps, Math::max);
        int last = t.at().length == 0 ? -1 : t.at()[t.at().length - 1];
        points.addAndGet(Math.max(0, e.steps - 1 - last));
        if (e.diverged || t.expectField() >= 0 && (last >= e.steps || e.info[last] != t.expectField())) { diverged.incrementAndGet(); if (System.getProperty("mc.debug") != null) System.out.println("diverged " + t.s().name() + " " + schedule(t.at(), t.to()) + " expected " + (t.expectField() < 0 ? "choice" : Instr.fieldName(t.expectField())) + " got " + (last < 0 || last >= e.steps ? "nothing" : Instr.fieldName(e.info[last])) + " flag " + e.diverged); if (bad == null) return; }
        c.sampleSchedule(t.s(), e, t.at(), t.to(), bad);
        if (bad != null) {
            // an execution of the same schedule must show it again
            String again = null;
            for (int k = 0; k < 6 && again == null; k++) { if (k > 2) warm.get().work = null; again = execute(t.s(), new Exec(t.at(), t.to())); }
            if (again == null) { unconfirmed.incrementAndGet(); return; }
            c.found(report(t, e, bad));
            // a few more of this space, not all of them
            if (!found) { found = true; runEnd = Math.min(runEnd, System.nanoTime() + 15_000_000_000L); }
            return;
        }
        children(t, e, last);
    }

    private void children(Task t, Exec e, int last) {
        // who touches what after a step: only an access still to come can change places with the one at the step
        HashMap<Long, int[]> by = new HashMap<>();
        for (int i = e.steps - 1; i > last; i--) {
            int me = e.who[i] & 15;
            if ((e.who[i] & 32) != 0) {
                // a thread ended or blocked, or the start: the other ones that could go on (the one that did: next step's)
                int chosen = -1;
                for (int j = i + 1; j < e.steps && chosen < 0; j++) chosen = e.who[j] & 15;
                int m = e.can[i];
                for (int x = 0; x < t.s().threads().length; x++) if ((m >> x & 1) == 1 && x != chosen && (chosen >= 0 || x != Integer.numberOfTrailingZeros(m)) && !(i == 0 && same(t.s(), x))) child(t, i, x, t.preemptions(), -1);
                continue;
            }
            int[] m = by.computeIfAbsent(e.loc[i], k -> new int[2]);
            boolean write = (e.who[i] & 16) != 0;
            int others = (write ? m[0] | m[1] : m[1]) & ~(1 << me) & e.can[i];
            m[write ? 1 : 0] |= 1 << me;
            // in these scenarios a thread may be stopped inside the initialisation of any class
            if (write && t.s().name().startsWith("classes-") && e.info[i] == Exec.INIT) others = e.can[i] & ~(1 << me);
            if ((e.who[i] & 64) != 0 || t.preemptions() >= t.s().bound() || others == 0 || !write && c.quick && t.s().free()) continue;
            shared.computeIfAbsent(Instr.fieldName(e.info[i]), k -> new AtomicLong()).incrementAndGet();
            for (int x = 0; x < t.s().threads().length; x++) if ((others >> x & 1) == 1) child(t, i, x, t.preemptions() + 1, e.info[i]);
        }
    }
    /** starting with a thread that makes the same calls as an earlier one is nothing new */
    private static boolean same(Scenario s, int x) {
        for (int y = 0; y < x; y++) if (Arrays.equals(s.threads()[y], s.threads()[x])) return true;
        return false;
    }
    private void child(Task t, int at, int to, int preemptions, int field) {
        int n = t.at().length;
        int[] a = Arrays.copyOf(t.at(), n + 1), b = Arrays.copyOf(t.to(), n + 1);
        a[n] = at; b[n] = to;
        open.incrementAndGet();
        tasks.addFirst(new Task(t.s(), a, b, preemptions, field, t.count()));
    }

    static String schedule(int[] at, int[] to) {
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < at.length; i++) b.append(i == 0 ? "" : " ").append(at[i]).append(':').append(to[i]);
        return b.toString();
    }

    private Ck.Bad report(Task t, Exec e, String bad) {
        Ck.Bad b = new Ck.Bad(t.s().toString(), null, null, "every thread gets what it gets alone", bad);
        b.key(t.s().name() + "|" + schedule(t.at(), t.to()));
        b.schedule = "scenario " + t.s().name() + "\nschedule " + schedule(t.at(), t.to()) + "\n";
        StringBuilder how = new StringBuilder();
        for (int i = 0; i < t.at().length; i++) {
            int k = t.at()[i];
            if (k >= e.steps) continue;
            how.append("# step ").append(k).append(": ").append((e.who[k] & 32) != 0 ? k == 0 ? "the start" : "thread " + (e.who[k] & 15) + " cannot go on" : "thread " + (e.who[k] & 15) + " is stopped before it " + ((e.who[k] & 16) != 0 ? "writes " : "reads ") + Instr.fieldName(e.info[k])).append("; thread ").append(t.to()[i]).append(" runs\n");
        }
        b.schedule += how;
        b.seq = executions.get();
        return b;
    }

    /** runs one schedule again and tells what happens */
    String replay(Scenario s, String schedule) {
        String[] p = schedule.isBlank() ? new String[0] : schedule.trim().split(" ");
        int[] at = new int[p.length], to = new int[p.length];
        for (int i = 0; i < p.length; i++) { at[i] = Integer.parseInt(p[i].substring(0, p[i].indexOf(':'))); to[i] = Integer.parseInt(p[i].substring(p[i].indexOf(':') + 1)); }
        Exec e = new Exec(at, to);
        String bad = execute(s, e);
        return (bad == null ? "no violation" : bad) + " (" + e.steps + " steps" + (e.diverged ? ", diverged from the schedule" : "") + ")";
    }
}
