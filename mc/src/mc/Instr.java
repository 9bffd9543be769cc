package mc;

import java.io.InputStream;
import java.net.URI;
import java.nio.file.FileSystems;
import java.nio.file.Files;
import java.nio.file.NoSuchFileException;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.FieldVisitor;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.commons.ClassRemapper;
import org.objectweb.asm.commons.MethodRemapper;
import org.objectweb.asm.commons.Remapper;

/**
 * Rewrites the classes under test (and copies of the collections of java.util that are not thread-safe, under the
 * package mcu) so that every access to shared memory and every synchronisation is announced to Hooks.
 */
final class Instr implements Opcodes {
    static final String HOOKS = "mc/Hooks", REPO = "com/github/sidhant92/";
    static final Set<String> COPIED = new HashSet<>(Arrays.asList("AbstractCollection", "AbstractList", "AbstractSequentialList", "AbstractSet", "AbstractMap", "AbstractQueue", "ArrayList", "LinkedList", "ArrayDeque", "PriorityQueue",
            "HashMap", "LinkedHashMap", "TreeMap", "EnumMap", "HashSet", "LinkedHashSet", "TreeSet", "IdentityHashMap", "WeakHashMap", "Collections", "BitSet"));

    /** names of the instrumented fields, by id */
    static final List<String> FIELDS = new ArrayList<>();
    private static final Map<String, Integer> FIELD_IDS = new HashMap<>();
    static final List<String> CLASSES = new ArrayList<>();
    private static final Map<String, Integer> CLASS_IDS = new HashMap<>();
    static synchronized int field(String n) { return FIELD_IDS.computeIfAbsent(n, k -> { FIELDS.add(k); return FIELDS.size() - 1; }); }
    static synchronized int cls(String n) { return CLASS_IDS.computeIfAbsent(n, k -> { CLASSES.add(k); return CLASSES.size() - 1; }); }
    static synchronized String fieldName(int i) { return i < FIELDS.size() ? FIELDS.get(i) : "?"; }

    private final Path repo;
    private final boolean copies;
    private final Map<String, byte[]> cache = new HashMap<>();
    private final Map<String, Info> infos = new HashMap<>();
    private static final Path BASE = FileSystems.getFileSystem(URI.create("jrt:/")).getPath("/modules/java.base");

    private static final class Info { String superName, rawSuper; boolean clinit, generated; final Set<String> finals = new HashSet<>(), fields = new HashSet<>(), methods = new HashSet<>(); }

    Instr(Path repo, boolean copies) { this.repo = repo; this.copies = copies; }

    static boolean isCopied(String n) {
        if (!n.startsWith("java/util/")) return false;
        String s = n.substring(10);
        int d = s.indexOf('$');
        return s.indexOf('/') < 0 && COPIED.contains(d < 0 ? s : s.substring(0, d));
    }
    private String map(String n) { return copies && isCopied(n) ? "mcu/" + n.substring(10) : n; }
    private static String unmap(String n) { return n.startsWith("mcu/") ? "java/util/" + n.substring(4) : n; }
    private static boolean mine(String n) { return n.startsWith(REPO) || n.startsWith("mcu/"); }

    private byte[] raw(String name) throws java.io.IOException {
        if (name.startsWith("mcu/")) return Files.readAllBytes(BASE.resolve(unmap(name) + ".class"));
        return Files.readAllBytes(repo.resolve(name + ".class"));
    }

    private Info info(String name) {
        Info i = infos.get(name);
        if (i != null) return i;
        Info r = new Info();
        infos.put(name, r);
        if (!mine(name)) return r;
        try {
            new ClassReader(raw(name)).accept(new ClassVisitor(ASM9) {
                @Override public void visit(int v, int a, String n, String s, String sup, String[] itf) { r.rawSuper = sup; r.superName = sup == null ? null : map(sup); r.generated = sup != null && sup.startsWith("org/antlr/"); }
                @Override public FieldVisitor visitField(int a, String n, String d, String s, Object v) { r.fields.add(n); if ((a & ACC_FINAL) != 0) r.finals.add(n); return null; }
                @Override public MethodVisitor visitMethod(int a, String n, String d, String s, String[] e) { r.methods.add(n); if (n.equals("<clinit>") && !"java/lang/Enum".equals(r.rawSuper)) r.clinit = true; return null; }
            }, ClassReader.SKIP_CODE);
        } catch (java.io.IOException e) { throw new IllegalStateException(name, e); }
        return r;
    }
    /** the class that declares the field, or null when it is not instrumented or final */
    private String declarer(String owner, String field) {
        for (String c = owner; c != null && mine(c); c = info(c).superName) if (info(c).fields.contains(field)) return info(c).finals.contains(field) ? null : c;
        return null;
    }
    private boolean needsInit(String owner) {
        for (String c = owner; c != null && mine(c); c = info(c).superName) if (info(c).clinit) return true;
        return false;
    }

    /** does the code under test hand one of the copied classes, by its class type, to a method of a library? then the originals have to stay */
    boolean copiesPossible() throws java.io.IOException {
        boolean[] ok = {true};
        try (var s = Files.walk(repo)) {
            for (Path p : (Iterable<Path>) s.filter(x -> x.toString().endsWith(".class"))::iterator) {
                new ClassReader(Files.readAllBytes(p)).accept(new ClassVisitor(ASM9) {
                    @Override public MethodVisitor visitMethod(int a, String n, String d, String sg, String[] e) {
                        return new MethodVisitor(ASM9) {
                            void desc(String owner, String desc) {
                                if (owner.startsWith(REPO) || isCopied(owner) || owner.startsWith("[")) return;
                                Type m = Type.getMethodType(desc);
                                for (Type t : m.getArgumentTypes()) bad(t);
                                bad(m.getReturnType());
                            }
                            void bad(Type t) { while (t.getSort() == Type.ARRAY) t = t.getElementType(); if (t.getSort() == Type.OBJECT && isCopied(t.getInternalName())) ok[0] = false; }
                            @Override public void visitMethodInsn(int op, String o, String nm, String ds, boolean itf) { desc(o, ds); }
                            @Override public void visitInvokeDynamicInsn(String nm, String ds, Handle b, Object... args) { for (Object x : args) if (x instanceof Handle h && h.getDesc().startsWith("(")) desc(h.getOwner(), h.getDesc()); }
                        };
                    }
                }, 0);
            }
        }
        return ok[0];
    }

    synchronized byte[] get(String name) throws ClassNotFoundException {
        byte[] b = cache.get(name);
        if (b != null) return b;
        try { b = transform(name); } catch (NoSuchFileException e) { throw new ClassNotFoundException(name); } catch (java.io.IOException e) { throw new ClassNotFoundException(name, e); }
        cache.put(name, b);
        return b;
    }

    private byte[] transform(String name) throws java.io.IOException {
        ClassReader r = new ClassReader(raw(name));
        ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
        ClassVisitor v = new Rewriter(w, name);
        Remapper rm = new Remapper() { @Override public String map(String n) { return Instr.this.map(n); } };
        v = new ClassRemapper(ASM9, v, rm) {};
        r.accept(v, ClassReader.SKIP_FRAMES);
        return w.toByteArray();
    }

    /** a call that is announced */
    private record Bridge(int op, String owner, String name, String desc, boolean itf, String method) {}

    private final class Rewriter extends ClassVisitor {
        final String self; boolean itf, generated; String superName;
        final Map<String, Bridge> bridges = new HashMap<>();
        boolean clinit;
        Rewriter(ClassVisitor v, String self) { super(ASM9, v); this.self = self; }

        @Override public void visit(int ver, int access, String name, String sig, String sup, String[] itfs) {
            itf = (access & ACC_INTERFACE) != 0;
            superName = sup;
            generated = sup != null && sup.startsWith("org/antlr/");
            super.visit(ver, access & ~ACC_FINAL, name, null, sup, itfs);
        }
        @Override public FieldVisitor visitField(int a, String n, String d, String s, Object v) {
            if (!itf && (a & ACC_STATIC) != 0) a &= ~ACC_FINAL;
            return super.visitField(a, n, d, s, v);
        }
        @Override public MethodVisitor visitMethod(int a, String n, String d, String s, String[] ex) {
            if (n.equals("<clinit>") && !itf && !"java/lang/Enum".equals(superName)) {
                clinit = true;
                MethodVisitor m = super.visitMethod(ACC_STATIC, n, d, null, null);
                m.visitCode();
                int id = cls(self);
                Label from = new Label(), to = new Label(), h = new Label();
                m.visitTryCatchBlock(from, to, h, null);
                m.visitLabel(from);
                push(m, id); m.visitMethodInsn(INVOKESTATIC, HOOKS, "initEnter", "(I)V", false);
                m.visitMethodInsn(INVOKESTATIC, self, "mc$clinit", "()V", false);
                m.visitLabel(to);
                push(m, id); m.visitMethodInsn(INVOKESTATIC, HOOKS, "initExit", "(I)V", false);
                m.visitInsn(RETURN);
                m.visitLabel(h);
                push(m, id); m.visitMethodInsn(INVOKESTATIC, HOOKS, "initExit", "(I)V", false);
                m.visitInsn(ATHROW);
                m.visitMaxs(0, 0);
                m.visitEnd();
                return new Body(super.visitMethod(ACC_STATIC | ACC_PRIVATE | ACC_SYNTHETIC, "mc$clinit", d, null, null), "<clinit>");
            }
            if ((a & ACC_SYNCHRONIZED) != 0 && (a & (ACC_ABSTRACT | ACC_NATIVE)) == 0) {
                String inner = "mc$sync$" + n;
                boolean st = (a & ACC_STATIC) != 0;
                MethodVisitor m = super.visitMethod(a & ~ACC_SYNCHRONIZED, n, d, null, ex);
                m.visitCode();
                Label from = new Label(), to = new Label(), h = new Label();
                m.visitTryCatchBlock(from, to, h, null);
                lockee(m, st); m.visitMethodInsn(INVOKESTATIC, HOOKS, "lock", "(Ljava/lang/Object;)V", false);
                m.visitLabel(from);
                int slot = 0;
                if (!st) { m.visitVarInsn(ALOAD, 0); slot = 1; }
                for (Type t : Type.getArgumentTypes(d)) { m.visitVarInsn(t.getOpcode(ILOAD), slot); slot += t.getSize(); }
                m.visitMethodInsn(st ? INVOKESTATIC : INVOKESPECIAL, self, inner, d, false);
                m.visitLabel(to);
                lockee(m, st); m.visitMethodInsn(INVOKESTATIC, HOOKS, "unlock", "(Ljava/lang/Object;)V", false);
                m.visitInsn(Type.getReturnType(d).getOpcode(IRETURN));
                m.visitLabel(h);
                lockee(m, st); m.visitMethodInsn(INVOKESTATIC, HOOKS, "unlock", "(Ljava/lang/Object;)V", false);
                m.visitInsn(ATHROW);
                m.visitMaxs(0, 0);
                m.visitEnd();
                return new Body(super.visitMethod(ACC_PRIVATE | ACC_SYNTHETIC | (st ? ACC_STATIC : 0), inner, d, null, ex), n);
            }
            MethodVisitor m = super.visitMethod(a, n, d, null, ex);
            return (a & (ACC_ABSTRACT | ACC_NATIVE)) != 0 ? m : new Body(m, n);
        }
        private void lockee(MethodVisitor m, boolean st) { if (st) m.visitLdcInsn(Type.getObjectType(self)); else m.visitVarInsn(ALOAD, 0); }

        @Override public void visitEnd() {
            for (Bridge b : new ArrayList<>(bridges.values())) {
                String full = "(L" + b.owner + ";" + b.desc.substring(1);
                MethodVisitor m = super.visitMethod(ACC_STATIC | ACC_SYNTHETIC | (itf ? ACC_PUBLIC : 0), b.method, full, null, null);
                m.visitCode();
                Type[] args = Type.getArgumentTypes(b.desc);
                int slot = 1;
                for (Type t : args) slot += t.getSize();
                int tok = slot;
                Label from = new Label(), to = new Label(), h = new Label();
                m.visitTryCatchBlock(from, to, h, null);
                m.visitVarInsn(ALOAD, 0);
                m.visitLdcInsn(b.name);
                if (args.length > 0 && args[0].getSort() >= Type.ARRAY) m.visitVarInsn(ALOAD, 1); else m.visitInsn(ACONST_NULL);
                push(m, args.length);
                m.visitMethodInsn(INVOKESTATIC, HOOKS, "enter", "(Ljava/lang/Object;Ljava/lang/String;Ljava/lang/Object;I)Ljava/lang/Object;", false);
                m.visitVarInsn(ASTORE, tok);
                m.visitLabel(from);
                m.visitVarInsn(ALOAD, 0);
                slot = 1;
                for (Type t : args) { m.visitVarInsn(t.getOpcode(ILOAD), slot); slot += t.getSize(); }
                m.visitMethodInsn(b.op, b.owner, b.name, b.desc, b.itf);
                m.visitLabel(to);
                m.visitVarInsn(ALOAD, tok); m.visitMethodInsn(INVOKESTATIC, HOOKS, "exit", "(Ljava/lang/Object;)V", false);
                m.visitInsn(Type.getReturnType(b.desc).getOpcode(IRETURN));
                m.visitLabel(h);
                m.visitVarInsn(ALOAD, tok); m.visitMethodInsn(INVOKESTATIC, HOOKS, "exit", "(Ljava/lang/Object;)V", false);
                m.visitInsn(ATHROW);
                m.visitMaxs(0, 0);
                m.visitEnd();
            }
            super.visitEnd();
        }

        /** a method that a class under test inherits from a library */
        private boolean inherited(String owner, String name) {
            if (!owner.startsWith(REPO)) return false;
            String c = owner;
            for (; c != null && c.startsWith(REPO); c = info(c).superName) if (info(c).methods.contains(name)) return false;
            if (c == null || c.equals("java/lang/Object") || c.equals("java/lang/Enum") || c.startsWith("mcu/") || c.equals("java/lang/Record")) return false;
            return !generated && !self.contains("$") || c.equals("org/antlr/v4/runtime/Parser") && (name.equals("match") || name.equals("enterRule") || name.equals("enterRecursionRule"));
        }
        private boolean bridged(String owner) {
            if (owner.startsWith("[") || mine(owner) || owner.startsWith("java/util/function/") || owner.startsWith("java/util/stream/")) return false;
            if (owner.startsWith("mcu/") || self.startsWith("mcu/")) return false;
            if (owner.startsWith("org/antlr/")) return !generated && !self.contains("$");
            if (owner.equals("java/util/Optional") || owner.equals("java/util/Locale") || owner.equals("java/util/UUID") || owner.equals("java/util/Objects") || owner.startsWith("java/util/Map$Entry")) return false;
            return owner.startsWith("java/util/") || owner.startsWith("java/text/") || owner.startsWith("com/github/benmanes/") || owner.equals("java/lang/StringBuilder") || owner.equals("java/lang/StringBuffer");
        }

        private final class Body extends MethodVisitor {
            final String method; final boolean init;
            Body(MethodVisitor m, String method) { super(ASM9, m); this.method = method; init = method.equals("<init>"); }

            private void use(String owner) {
                if (owner.equals(self) || !mine(owner) || !needsInit(owner)) return;
                push(mv, cls(owner));
                super.visitMethodInsn(INVOKESTATIC, HOOKS, "use", "(I)V", false);
            }
            @Override public void visitTypeInsn(int op, String type) { if (op == NEW) use(type); super.visitTypeInsn(op, type); }
            @Override public void visitFieldInsn(int op, String owner, String name, String desc) {
                if (op == GETSTATIC || op == PUTSTATIC) use(owner);
                String d = mine(owner) ? declarer(owner, name) : null;
                if (d != null && !name.startsWith("$SwitchMap") && !(init && op == PUTFIELD)) {
                    int id = field(d.substring(d.lastIndexOf('/') + 1) + "." + name);
                    int size = Type.getType(desc).getSize();
                    switch (op) {
                        case GETSTATIC -> { push(mv, id); super.visitMethodInsn(INVOKESTATIC, HOOKS, "sread", "(I)V", false); }
                        case PUTSTATIC -> { push(mv, id); super.visitMethodInsn(INVOKESTATIC, HOOKS, "swrite", "(I)V", false); }
                        case GETFIELD -> { super.visitInsn(DUP); push(mv, id); super.visitMethodInsn(INVOKESTATIC, HOOKS, "read", "(Ljava/lang/Object;I)V", false); }
                        default -> {
                            if (size == 1) { super.visitInsn(DUP2); super.visitInsn(POP); }
                            else { super.visitInsn(DUP2_X1); super.visitInsn(POP2); super.visitInsn(DUP_X2); }
                            push(mv, id);
                            super.visitMethodInsn(INVOKESTATIC, HOOKS, "write", "(Ljava/lang/Object;I)V", false);
                        }
                    }
                }
                super.visitFieldInsn(op, owner, name, desc);
            }
            @Override public void visitInsn(int op) {
                switch (op) {
                    case IALOAD, LALOAD, FALOAD, DALOAD, AALOAD, BALOAD, CALOAD, SALOAD -> { super.visitInsn(DUP2); super.visitMethodInsn(INVOKESTATIC, HOOKS, "aread", "(Ljava/lang/Object;I)V", false); super.visitInsn(op); }
                    case AASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "astore", "([Ljava/lang/Object;ILjava/lang/Object;)V", false);
                    case IASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "astore", "([III)V", false);
                    case LASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "astore", "([JIJ)V", false);
                    case FASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "astore", "([FIF)V", false);
                    case DASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "astore", "([DID)V", false);
                    case BASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "bstore", "(Ljava/lang/Object;II)V", false);
                    case CASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "cstore", "([CII)V", false);
                    case SASTORE -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "cstore", "([SII)V", false);
                    case MONITORENTER -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "lock", "(Ljava/lang/Object;)V", false);
                    case MONITOREXIT -> super.visitMethodInsn(INVOKESTATIC, HOOKS, "unlock", "(Ljava/lang/Object;)V", false);
                    default -> super.visitInsn(op);
                }
            }
            @Override public void visitMethodInsn(int op, String owner, String name, String desc, boolean isItf) {
                if (op == INVOKESTATIC) {
                    if (owner.equals("java/lang/System") && name.equals("identityHashCode")) { super.visitMethodInsn(INVOKESTATIC, HOOKS, "idHash", "(Ljava/lang/Object;)I", false); return; }
                    if (owner.equals("java/lang/Thread") && (name.equals("yield") || name.equals("onSpinWait")) && desc.equals("()V")) { super.visitMethodInsn(INVOKESTATIC, HOOKS, "yieldPoint", "()V", false); return; }
                    if (owner.equals("java/lang/Thread") && name.equals("sleep") && desc.equals("(J)V")) { super.visitInsn(POP2); super.visitMethodInsn(INVOKESTATIC, HOOKS, "yieldPoint", "()V", false); return; }
                    use(owner);
                }
                if (op == INVOKEVIRTUAL && desc.equals("()I") && name.equals("hashCode") && (owner.equals("java/lang/Object") || owner.equals("java/lang/Enum"))) { super.visitMethodInsn(INVOKESTATIC, HOOKS, "hash", "(Ljava/lang/Object;)I", false); return; }
                if (op == INVOKEVIRTUAL && name.equals("wait") && desc.equals("()V")) { super.visitMethodInsn(INVOKESTATIC, HOOKS, "waitOn", "(Ljava/lang/Object;)V", false); return; }
                if (op == INVOKEVIRTUAL && name.equals("wait") && desc.equals("(J)V")) { super.visitInsn(POP2); super.visitMethodInsn(INVOKESTATIC, HOOKS, "waitOn", "(Ljava/lang/Object;)V", false); return; }
                if (op == INVOKEVIRTUAL && (name.equals("notify") || name.equals("notifyAll")) && desc.equals("()V")) { super.visitMethodInsn(INVOKESTATIC, HOOKS, "wake", "(Ljava/lang/Object;)V", false); return; }
                if ((op == INVOKEVIRTUAL || op == INVOKEINTERFACE) && (bridged(owner) || inherited(owner, name))) {
                    String key = op + owner + name + desc;
                    Bridge b = bridges.get(key);
                    if (b == null) bridges.put(key, b = new Bridge(op, owner, name, desc, isItf, "mc$call$" + bridges.size()));
                    super.visitMethodInsn(INVOKESTATIC, self, b.method, "(L" + owner + ";" + desc.substring(1), itf);
                    return;
                }
                super.visitMethodInsn(op, owner, name, desc, isItf);
            }
        }
    }
    static void push(MethodVisitor m, int n) {
        if (n >= -1 && n <= 5) m.visitInsn(ICONST_0 + n); else if (n >= Short.MIN_VALUE && n <= Short.MAX_VALUE) m.visitIntInsn(SIPUSH, n); else m.visitLdcInsn(n);
    }
}
