package mc;

import java.util.LinkedHashMap;
import java.util.Map;

final class Props {
    private static final Map<String, Ck.Body> ALL = new LinkedHashMap<>();
    static {
        ALL.put("C01", PLogic::c01);
        ALL.put("C02", PLogic::c02);
        ALL.put("C03", PCompare::c03);
        ALL.put("C04", PCompare::c04);
        ALL.put("C05", PCompare::c05);
        ALL.put("C06", PCompare::c06);
        ALL.put("C07", PSets::c07);
        ALL.put("C08", PSets::c08);
        ALL.put("C09", PSets::c09);
        ALL.put("C10", PSets::c10);
        ALL.put("C11", PSets::c11);
        ALL.put("C12", PSets::c12);
        ALL.put("C13", PArith::c13);
        ALL.put("C14", PArith::c14);
        ALL.put("C15", PArith::c15);
        ALL.put("C16", PArith::c16);
        ALL.put("C17", PLang::c17);
        ALL.put("C18", PLang::c18);
        ALL.put("C19", PLang::c19);
        ALL.put("C20", PPure::c20);
        ALL.put("C21", PPure::c21);
        ALL.put("C22", PPure::c22);
        ALL.put("C23", PConc::c23);
        ALL.put("C24", PConc::c24);
        ALL.put("C25", PConc::c25);
        ALL.put("C26", PArith::c26);
    }
    static Ck.Body body(String id) {
        Ck.Body b = ALL.get(id);
        if (b == null) throw new IllegalArgumentException("no check for " + id);
        return b;
    }
}
