package mc;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.LongAdder;

/**
 * One run of one check: receives every case of the enumerated spaces, executes each on the real code and on the
 * reference model, and keeps the counts that become evidence.
 */
final class Ck {
    static final int THREADS = Math.max(2, Math.min(8, Runtime.getRuntime().availableProcessors()));
    static final int BATCH = 256;
    static final int MAX_VIOLATIONS = 25;

    final String id, tier;
    final boolean quick;
    final Known known;
    final long t0 = System.nanoTime();

    /** a case: executes on the implementation and returns null, or what is wrong */
    interface Case { Bad run(Worker w); }

    /** a disagreement */
    static final class Bad {
        final String call, expected, actual;
        final Map<String, Object> data; final String def;
        String schedule;         // for interleavings: scenario and schedule, to replay
        String snippet;          // standalone Java statements showing it, or null
        String key;              // identifies the failing input in the known-findings file
        long seq; String space;
        boolean knownFinding;
        Bad(String call, Map<String, Object> data, String def, String expected, String actual) {
            this.call = call; this.data = data; this.def = def; this.expected = expected; this.actual = actual; this.key = call;
        }
        Bad snippet(String s) { snippet = s; return this; }
        Bad key(String k) { key = k; return this; }
    }

    /** per-thread instances of the code under test */
    static final class Worker {
        Impl impl = new Impl();
        long runs, traces, states;
        void count(boolean decided) { runs++; if (decided) traces++; }
    }

    private final ArrayBlockingQueue<Object[]> queue = new ArrayBlockingQueue<>(64);
    private final List<Thread> threads = new ArrayList<>();
    private final List<Bad> bad = Collections.synchronizedList(new ArrayList<>());
    private final LongAdder runs = new LongAdder(), traces = new LongAdder(), steps = new LongAdder();
    private final Seen seen = new Seen();
    private final AtomicLong samplesTaken = new AtomicLong();
    private final List<Object> samples = Collections.synchronizedList(new ArrayList<>());
    private final Map<String, long[]> spaces = new LinkedHashMap<>();
    private final Map<String, String> spaceNotes = new LinkedHashMap<>();
    final Map<String, Object> extra = new LinkedHashMap<>();
    final List<String> assumptions = new ArrayList<>();
    private String space = "all";
    private long[] spaceCount;
    private List<Case> batch = new ArrayList<>(BATCH);
    private long seq = 0;
    private volatile boolean stop;
    private volatile Throwable crashed;
    String filter;   // run only spaces whose name contains this

    Ck(String id, String tier, Known known) {
        this.id = id; this.tier = tier; this.quick = !tier.equals("thorough"); this.known = known;
        for (int i = 0; i < THREADS; i++) {
            Thread t = new Thread(null, this::work, "w" + i, 512L << 20);
            t.setDaemon(true);
            t.start();
            threads.add(t);
        }
    }

    /** thrown to leave an enumeration early: enough violations */
    static final class Stop extends RuntimeException { Stop() { super(null, null, false, false); } }

    /** starts a named sub-space; what follows is counted under it. Returns false when it is filtered out. */
    boolean space(String name, String what) {
        space = name;
        if (filter != null && !name.contains(filter)) { spaceCount = new long[1]; return false; }
        spaceCount = spaces.computeIfAbsent(name, k -> new long[1]);
        spaceNotes.put(name, what);
        return true;
    }

    void add(Case c) {
        if (stop) throw new Stop();
        spaceCount[0]++;
        batch.add(c);
        if (batch.size() >= BATCH) flush();
    }

    /** a long-running case: given to a worker of its own at once */
    void heavy(Case c) { flush(); add(c); flush(); }

    private final AtomicLong inFlight = new AtomicLong();
    /** waits until everything added so far has been executed: before the environment (zone, locale) changes */
    void barrier() {
        flush();
        while (inFlight.get() > 0 && crashed == null) try { Thread.sleep(1); } catch (InterruptedException e) { throw new RuntimeException(e); }
    }

    private void flush() {
        if (batch.isEmpty()) return;
        inFlight.incrementAndGet();
        try { queue.put(new Object[]{batch, seq, space}); } catch (InterruptedException e) { throw new RuntimeException(e); }
        seq += batch.size();
        batch = new ArrayList<>(BATCH);
        if (crashed != null) throw new RuntimeException(crashed);
    }

    @SuppressWarnings("unchecked")
    private void work() {
        Worker w = new Worker();
        long[] st = Ref.STEPS.get();
        try {
            while (true) {
                Object[] q = queue.take();
                if (q.length == 0) break;
                List<Case> cs = (List<Case>) q[0];
                for (int i = 0; i < cs.size(); i++) {
                    Bad b = cs.get(i).run(w);
                    if (b != null) { b.seq = (Long) q[1] + i; b.space = (String) q[2]; found(b); }
                }
                inFlight.decrementAndGet();
            }
        } catch (Throwable e) {
            crashed = e;
            e.printStackTrace();
            while (true) try { if (queue.take().length == 0) break; } catch (InterruptedException x) { break; }
        } finally {
            runs.add(w.runs); traces.add(w.traces); steps.add(st[0]);
        }
    }

    void found(Bad b) {
        if (known.match(id, b)) { b.knownFinding = true; bad.add(b); return; }
        bad.add(b);
        int n = 0;
        synchronized (bad) { for (Bad x : bad) if (!x.knownFinding) n++; }
        if (n >= MAX_VIOLATIONS) stop = true;
    }

    boolean stopped() { return stop; }

    // ---- ordinary cases -------------------------------------------------------------------------

    void state(String kind, String text, Object data, String def) {
        seen.add(kind, text, data, def);
    }

    void sample(String text, Map<String, Object> data, String def, Object outcome) {
        if (samples.size() >= 12) return;
        long n = samplesTaken.incrementAndGet();
        if (Long.bitCount(n) != 1 && n % 7919 != 0) return;
        Map<String, Object> m = new LinkedHashMap<>();
        m.put("expression", cut(text, 300)); m.put("data", cut(show(data), 300));
        if (def != null) m.put("default", def);
        m.put("outcome", cut(String.valueOf(outcome), 200)); m.put("space", space);
        samples.add(m);
    }
    static String show(Object o) { try { return String.valueOf(o); } catch (Throwable t) { return "a " + o.getClass().getName(); } }
    static String cut(String s, int n) { return s.length() <= n ? s : s.substring(0, n) + "...(" + s.length() + " chars)"; }

    /** the boolean evaluation of a model expression, in fully parenthesised form */
    void cond(E e, Map<String, Object> data, String def) { cond(null, e, data, def); }
    void cond(E e, Map<String, Object> data) { cond(null, e, data, null); }

    /** the boolean evaluation of a text whose meaning is the model expression e */
    void cond(String text0, E e, Map<String, Object> data, String def) {
        add(w -> {
            String text = text0 == null ? E.print(e) : text0;
            Out want = Ref.cond(e, data, def);
            return judge(w, true, text, data, def, want);
        });
    }
    void val(E e, Map<String, Object> data) { val(null, e, data); }
    void val(String text0, E e, Map<String, Object> data) {
        add(w -> {
            String text = text0 == null ? E.print(e) : text0;
            Out want = Ref.val(e, data);
            return judge(w, false, text, data, null, want);
        });
    }
    /** text must be a failure (or a given outcome) */
    void condOut(String text, Map<String, Object> data, String def, Out want) { add(w -> judge(w, true, text, data, def, want)); }
    void valOut(String text, Map<String, Object> data, Out want) { add(w -> judge(w, false, text, data, null, want)); }

    Bad judge(Worker w, boolean cond, String text, Map<String, Object> data, String def, Out want) {
        Impl.Got got = cond ? w.impl.cond(text, data, def) : w.impl.val(text, data);
        w.count(!want.isAny());
        seen.add(cond ? "c" : "v", text, data, def);
        sample(text, data, def, got);
        if (Impl.agrees(want, got)) return null;
        // once more on fresh instances, to say in the report whether it repeats
        Impl.Got again = cond ? new Impl().cond(text, data, def) : new Impl().val(text, data);
        Bad b = new Bad(text, data, def, want.toString(), got + (again.toString().equals(got.toString()) ? "" : " -- on new instances: " + again));
        return b.snippet(Replay.evalSnippet(cond, text, data, def));
    }

    // ---- end ------------------------------------------------------------------------------------

    interface Body { void run(Ck c) throws Exception; }

    int finish(Body body) throws Exception {
        Throwable err = null;
        try { body.run(this); flush(); } catch (Stop s) { batch.clear(); } catch (Throwable t) { err = t; }
        for (int i = 0; i < THREADS; i++) queue.put(new Object[0]);
        for (Thread t : threads) t.join();
        if (err == null) err = crashed;
        if (err != null) { err.printStackTrace(); System.out.println("ERROR the check itself failed: " + err); return 2; }
        List<Bad> fresh = new ArrayList<>();
        Map<String, Bad> knownHit = new LinkedHashMap<>();
        bad.sort((a, b) -> a.call.length() != b.call.length() ? Integer.compare(a.call.length(), b.call.length()) : Long.compare(a.seq, b.seq));
        Map<String, Long> knownCount = new LinkedHashMap<>();
        for (Bad b : bad) {
            if (b.knownFinding) { knownHit.putIfAbsent(known.name(id, b), b); knownCount.merge(known.name(id, b), 1L, Long::sum); }
            else fresh.add(b);
        }
        for (String k : known.names(id)) System.out.println("KNOWN-FINDING: property=" + id + " " + k + " (" + knownCount.getOrDefault(k, 0L) + " explored cases)");
        Path replay = null;
        if (!fresh.isEmpty()) replay = Replay.write(id, tier, fresh);
        evidence(fresh.size(), knownCount);
        System.out.printf("%s %s: %d states, %d model transitions, %d executions of the code (%d decided), %d violations, %.1f s%n",
                id, tier, seen.size() + addedStates, steps.sum() + addedSteps, runs.sum() + addedTraces, traces.sum() + addedTraces, fresh.size(), (System.nanoTime() - t0) / 1e9);
        spaces.forEach((k, v) -> System.out.printf("   %-28s %12d   %s%n", k, v[0], spaceNotes.get(k)));
        if (fresh.isEmpty()) return 0;
        for (int i = 0; i < Math.min(5, fresh.size()); i++) {
            Bad b = fresh.get(i);
            System.out.println("  [" + b.space + "] " + cut(b.call, 400) + "\n     data " + cut(show(b.data), 400) + (b.def == null ? "" : "  default " + b.def)
                    + "\n     expected " + cut(b.expected, 400) + "\n     actual   " + cut(b.actual, 600));
        }
        System.out.println("VIOLATION property=" + id + " replay=" + replay);
        return 1;
    }

    private long addedStates, addedSteps, addedTraces;
    /** what the explorer of interleavings covered */
    void interleavings(long points, long steps, long executions) { addedStates += points; addedSteps += steps; addedTraces += executions; }
    void scenario() { if (stop) throw new Stop(); spaceCount[0]++; }
    private int schedules;
    synchronized void sampleSchedule(Explore.Scenario s, Exec e, int[] at, int[] to, String bad) {
        if (samples.size() >= 12 || Integer.bitCount(++schedules) != 1) return;
        Map<String, Object> m = new LinkedHashMap<>();
        m.put("scenario", cut(s.toString(), 400)); m.put("schedule", cut(Explore.schedule(at, to), 200)); m.put("steps", e.steps); m.put("outcome", bad == null ? "every thread got what it gets alone" : cut(bad, 200));
        samples.add(m);
    }

    private void evidence(int violations, Map<String, Long> knownCount) throws IOException {
        Map<String, Object> cov = new LinkedHashMap<>();
        cov.put("states", seen.size() + addedStates);
        cov.put("transitions", steps.sum() + addedSteps);
        cov.put("traces_validated_against_impl", traces.sum() + addedTraces);
        cov.put("impl_executions", runs.sum() + addedTraces);
        cov.put("samples", new ArrayList<>(samples));
        Map<String, Object> sp = new LinkedHashMap<>();
        spaces.forEach((k, v) -> { Map<String, Object> m = new LinkedHashMap<>(); m.put("cases", v[0]); m.put("space", spaceNotes.get(k)); sp.put(k, m); });
        cov.put("spaces", sp);
        cov.put("exhaustive", !stop && filter == null);
        if (!knownCount.isEmpty()) cov.put("known_finding_cases", new LinkedHashMap<>(knownCount));
        cov.putAll(extra);
        Map<String, Object> ev = new LinkedHashMap<>();
        ev.put("property", id);
        ev.put("tier", quick ? "quick" : "thorough");
        ev.put("seed", Integer.parseInt(System.getenv().getOrDefault("VERIF_SEED", "1")));
        ev.put("level", "model_checking");
        ev.put("coverage", cov);
        List<String> as = new ArrayList<>(assumptions);
        as.add("The reference model (mc/src/mc/Ref.java) states the documented meaning; every enumerated case of the model is replayed on the real code, so the model is bound to it case by case.");
        ev.put("assumptions", as);
        ev.put("wall_s", Math.round((System.nanoTime() - t0) / 1e7) / 100.0);
        ev.put("violations", violations);
        Path p = Path.of(System.getProperty("mc.root", "."), "evidence", id + ".json");
        Files.createDirectories(p.getParent());
        Files.write(p, Json.write(ev).getBytes(StandardCharsets.UTF_8));
    }

    /** distinct configurations, by a 64-bit hash */
    static final class Seen {
        private static final int SHARDS = 64;
        private final long[][] t = new long[SHARDS][1 << 12];
        private final int[] n = new int[SHARDS];
        private final Object[] lock = new Object[SHARDS];
        { for (int i = 0; i < SHARDS; i++) lock[i] = new Object(); }
        void add(String kind, String text, Object data, String def) {
            long h = 1125899906842597L + kind.charAt(0);
            if (text != null) for (int i = 0; i < text.length(); i++) h = h * 0x100000001b3L + text.charAt(i);
            h = mix(h ^ content(data) * 0x9E3779B97F4A7C15L);
            if (def != null) h = mix(h + def.hashCode() * 31L + 7);
            add(h);
        }
        /** a hash of the content and types of the data */
        static long content(Object o) { return content(o, 0); }
        static long content(Object o, int depth) {
            if (depth > 12) return 77;
            if (o == null) return 3;
            try {
                if (!o.getClass().getName().startsWith("java.")) return System.identityHashCode(o);
                if (o instanceof Map<?, ?> m) {
                    long r = 17;
                    for (Map.Entry<?, ?> e : m.entrySet()) r += mix(content(e.getKey(), depth + 1) * 31 + mix(content(e.getValue(), depth + 1) + 5));
                    return mix(r);
                }
                if (o instanceof java.util.Collection<?> c) {
                    long r = o.getClass().getName().hashCode();
                    for (Object x : c) r = mix(r * 31 + content(x, depth + 1));
                    return r;
                }
                if (o instanceof String || o instanceof Number || o instanceof Boolean || o instanceof java.time.temporal.Temporal)
                    return mix(o.getClass().getName().hashCode() * 1000003L + o.toString().hashCode() + ((long) o.hashCode() << 20));
            } catch (RuntimeException e) { /* hostile */ }
            return System.identityHashCode(o);
        }
        static long mix(long h) { h ^= h >>> 33; h *= 0xff51afd7ed558ccdL; h ^= h >>> 33; h *= 0xc4ceb9fe1a85ec53L; h ^= h >>> 33; return h; }
        void add(long h) {
            h = mix(h);
            if (h == 0) h = 1;
            int s = (int) (h >>> 58);
            synchronized (lock[s]) {
                long[] a = t[s];
                if (n[s] * 2 > a.length) {
                    long[] b = new long[a.length * 2];
                    for (long x : a) if (x != 0) { int i = (int) x & (b.length - 1); while (b[i] != 0) i = (i + 1) & (b.length - 1); b[i] = x; }
                    t[s] = a = b;
                }
                int i = (int) h & (a.length - 1);
                while (a[i] != 0) { if (a[i] == h) return; i = (i + 1) & (a.length - 1); }
                a[i] = h;
                n[s]++;
            }
        }
        long size() { long r = 0; for (int x : n) r += x; return r; }
    }
}
