package mc;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Set;

/**
 * known_findings.txt. Lines "known: property=ID finding=NAME inputs=FILTER what": FILTER names a predicate below that
 * identifies the failing inputs together with the exact wrong outcome; anything else is still a violation.
 * Lines "fixed: ..." are a record only and suppress nothing.
 */
final class Known {
    record Entry(String property, String finding, String what) {}
    private final List<Entry> entries = new ArrayList<>();

    static Known load(Path p) throws IOException {
        Known k = new Known();
        if (!Files.exists(p)) return k;
        for (String l : Files.readAllLines(p)) {
            if (!l.startsWith("known: ")) continue;
            String[] f = l.substring(7).split(" ", 3);
            k.entries.add(new Entry(f[0].substring("property=".length()), f[1].substring("finding=".length()), f[2]));
        }
        return k;
    }

    /** the case says itself which finding it is an instance of (Bad.key = finding name), only listed ones are accepted */
    boolean match(String id, Ck.Bad b) { return name(id, b) != null; }
    String name(String id, Ck.Bad b) {
        for (Entry e : entries) if (e.property.equals(id) && b.key.equals("finding:" + e.finding)) return e.finding + " " + e.what;
        return null;
    }
    Set<String> names(String id) {
        Set<String> r = new LinkedHashSet<>();
        for (Entry e : entries) if (e.property.equals(id)) r.add(e.finding + " " + e.what);
        return r;
    }
}
