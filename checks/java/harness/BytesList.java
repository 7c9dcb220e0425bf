package harness;

import zserio.runtime.array.Array;
import zserio.runtime.array.RawArray;

/** Arrays of byte arrays. */
public final class BytesList
{
    public BytesList(int size)
    {
        items = new byte[size][];
    }

    public BytesList(Array array)
    {
        items = array.getRawArray();
    }

    public void set(int index, byte[] value)
    {
        items[index] = value;
    }

    public byte[] get(int index)
    {
        return items[index];
    }

    public int size()
    {
        return items.length;
    }

    public RawArray raw()
    {
        return new RawArray.BytesRawArray(items);
    }

    private final byte[][] items;
}
