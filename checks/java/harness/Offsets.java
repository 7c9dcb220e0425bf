package harness;

import zserio.runtime.array.OffsetChecker;
import zserio.runtime.array.OffsetInitializer;

/** Records the offsets an array reports. */
public final class Offsets implements OffsetChecker, OffsetInitializer
{
    public void checkOffset(int index, long byteOffset)
    {
        checked[checkedCount * 2] = index;
        checked[checkedCount * 2 + 1] = byteOffset;
        checkedCount++;
    }

    public void setOffset(int index, long byteOffset)
    {
        set[setCount * 2] = index;
        set[setCount * 2 + 1] = byteOffset;
        setCount++;
    }

    public long[] takeChecked()
    {
        final long[] result = java.util.Arrays.copyOf(checked, checkedCount * 2);
        checkedCount = 0;
        return result;
    }

    public long[] takeSet()
    {
        final long[] result = java.util.Arrays.copyOf(set, setCount * 2);
        setCount = 0;
        return result;
    }

    private final long[] checked = new long[64];
    private final long[] set = new long[64];
    private int checkedCount = 0;
    private int setCount = 0;
}
