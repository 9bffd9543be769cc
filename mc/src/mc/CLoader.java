package mc;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;

/** One fresh copy of the code under test: all its statics as in a new process. */
final class CLoader extends ClassLoader {
    private final Instr instr;
    private final Path harness;
    CLoader(Instr instr, Path harness) { super(CLoader.class.getClassLoader()); this.instr = instr; this.harness = harness; }

    @Override protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
        boolean mine = name.startsWith("com.github.sidhant92.") || name.startsWith("mcu."), driver = name.equals("mc.Dump") || name.equals("mc.Driver") || name.startsWith("mc.Driver$");
        if (!mine && !driver) return super.loadClass(name, resolve);
        synchronized (getClassLoadingLock(name)) {
            Class<?> c = findLoadedClass(name);
            if (c != null) return c;
            try {
                byte[] b = mine ? instr.get(name.replace('.', '/')) : Files.readAllBytes(harness.resolve(name.replace('.', '/') + ".class"));
                return defineClass(name, b, 0, b.length);
            } catch (IOException e) { throw new ClassNotFoundException(name, e); }
        }
    }
    Work work() {
        try { return (Work) loadClass("mc.Driver").getDeclaredConstructor().newInstance(); } catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
    }
}
