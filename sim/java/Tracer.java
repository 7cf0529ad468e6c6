import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import org.python.core.Py;
import org.python.core.PyBaseCode;
import org.python.core.PyFrame;
import org.python.core.PyObject;
import org.python.core.ThreadState;
import org.python.core.TraceFunction;

/**
 * Counts source lines, and lets the simulator switch threads at any of them.
 * (sys.settrace() holds a lock of the interpreter while it calls back, so that no
 * other thread could be let in.) One thread at a time is running, so that nothing
 * here needs a lock.
 */
public class Tracer extends TraceFunction {
    public String prefix;
    public boolean everything;      // count lines of the libraries, too
    public boolean lines;           // a line of the code under test is a place to switch at
    public long steps;
    public long limit;              // 0: none
    public int yields;
    public HashSet<Integer> at = new HashSet<Integer>();
    public PyObject onSwitch;       // called with the index of the place
    public PyObject onLimit;

    // the places met while recording: which line is where
    public boolean recording;
    private final HashMap<String, ArrayList<Integer>> index = new HashMap<String, ArrayList<Integer>>();
    private final ArrayList<ArrayList<Integer>> met = new ArrayList<ArrayList<Integer>>();

    public int places() {
        return met.size();
    }

    /** One of the times the k-th of the recorded lines was reached. */
    public int place(int k, int n) {
        ArrayList<Integer> l = met.get(k);
        return l.get(n % l.size());
    }

    private void record(PyFrame f, int line, int i) {
        String key = ((PyBaseCode) f.f_code).co_filename + ":" + line;
        ArrayList<Integer> l = index.get(key);
        if (l == null) {
            l = new ArrayList<Integer>();
            index.put(key, l);
            met.add(l);
        }
        l.add(i);
    }

    private class Library extends TraceFunction {
        public TraceFunction traceCall(PyFrame f) {
            return this;
        }
        public TraceFunction traceReturn(PyFrame f, PyObject r) {
            return this;
        }
        public TraceFunction traceException(PyFrame f, org.python.core.PyException e) {
            return this;
        }
        public TraceFunction traceLine(PyFrame f, int line) {
            count();
            return this;
        }
    }

    private final Library library = new Library();

    public void add(int i) {
        at.add(i);
    }

    public void on() {
        Py.getThreadState().tracefunc = this;
    }

    public static void off() {
        Py.getThreadState().tracefunc = null;
    }

    private void call(PyObject f, PyObject arg) {
        ThreadState ts = Py.getThreadState();
        TraceFunction old = ts.tracefunc;
        ts.tracefunc = null;
        try {
            f.__call__(arg);
        } finally {
            ts.tracefunc = old;
        }
    }

    /** Others may need the interpreter's import lock. */
    public static boolean importing() {
        return Py.getSystemState().getImportLock().isHeldByCurrentThread();
    }

    void count() {
        steps++;
        if (limit > 0 && steps > limit) {
            call(onLimit, Py.newInteger(0));
        }
    }

    public TraceFunction traceCall(PyFrame f) {
        String name = ((PyBaseCode) f.f_code).co_filename;
        if (name.startsWith(prefix)) {
            return this;
        }
        return everything ? library : null;
    }

    public TraceFunction traceReturn(PyFrame f, PyObject r) {
        return this;
    }

    public TraceFunction traceException(PyFrame f, org.python.core.PyException e) {
        return this;
    }

    public TraceFunction traceLine(PyFrame f, int line) {
        count();
        if (lines) {
            int i = yields++;
            if (recording) {
                record(f, line, i);
            }
            if (at.contains(i) && !importing()) {
                call(onSwitch, Py.newInteger(i));
            }
        }
        return this;
    }
}
