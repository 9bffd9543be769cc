package mc;

import java.nio.file.Path;

public final class Main {
    public static void main(String[] a) throws Exception {
        String id = a[0], tier = a.length > 1 ? a[1] : "quick";
        Known known = Known.load(Path.of(System.getProperty("mc.root", "."), "known_findings.txt"));
        Ck ck = new Ck(id, tier, known);
        if (a.length > 2 && !a[2].isEmpty()) ck.filter = a[2];
        if (a.length > 3) {   // mc.Main PROPERTY TIER "" FILE: one schedule again
            Explore.wanted = new String[2];
            for (String l : java.nio.file.Files.readAllLines(Path.of(a[3]))) { if (l.startsWith("scenario ")) Explore.wanted[0] = l.substring(9); if (l.startsWith("schedule")) Explore.wanted[1] = l.substring(8).trim(); }
            ck.filter = null;
            try { Props.body(id).run(ck); } catch (Ck.Stop s) { /* found */ }
            System.out.flush();
            Runtime.getRuntime().halt(0);
        }
        int rc = ck.finish(Props.body(id));
        System.out.flush();
        Runtime.getRuntime().halt(rc);
    }
}
