package mc;

import java.util.Map;

/** What the explorer asks of the code under test inside its own class loader; implemented by Driver. */
public interface Work {
    /** a parser with its evaluators: "plain" or "cache:SIZE"; or "parser": without evaluators */
    Object make(String kind);
    /** one call; returns its outcome as text. entry: 0, 1 parse without / with default, 2, 3 boolean, 4 arithmetic */
    String call(Object instance, int entry, String text, Map<String, Object> data, String def, Object[] keep);
    /** the tree kept by a call, written out again */
    String again(Object kept);
}
