namespace System
{
    public class Exception
    {
        public string Message;
        public Exception() { }
        public Exception(string message) { Message = message; }
        public Exception(string message, Exception inner) { Message = message; }
        protected Exception(System.Runtime.Serialization.SerializationInfo info, System.Runtime.Serialization.StreamingContext context) { }
    }
    public class SystemException : Exception { public SystemException() { } public SystemException(string m) : base(m) { } }
    public class InvalidOperationException : SystemException { public InvalidOperationException() { } public InvalidOperationException(string m) : base(m) { } }
    public class ObjectDisposedException : InvalidOperationException { public ObjectDisposedException(string m) : base(m) { } }
    public class NotSupportedException : SystemException { public NotSupportedException() { } public NotSupportedException(string m) : base(m) { } }
    public class NotImplementedException : SystemException { public NotImplementedException() { } public NotImplementedException(string m) : base(m) { } }
    public class NullReferenceException : SystemException { public NullReferenceException(string m) : base(m) { } }
    public class IndexOutOfRangeException : SystemException { public IndexOutOfRangeException() { } public IndexOutOfRangeException(string m) : base(m) { } }
    public class InvalidCastException : SystemException { public InvalidCastException(string m) : base(m) { } }
    public class ArgumentException : SystemException { public ArgumentException() { } public ArgumentException(string m) : base(m) { } public ArgumentException(string m, string p) : base(m) { } }
    public class ArgumentNullException : ArgumentException { public ArgumentNullException() { } public ArgumentNullException(string m) : base(m) { } public ArgumentNullException(string p, string m) : base(m) { } }
    public class ArgumentOutOfRangeException : ArgumentException { public ArgumentOutOfRangeException() { } public ArgumentOutOfRangeException(string m) : base(m) { } public ArgumentOutOfRangeException(string p, string m) : base(m) { } }
    public class OverflowException : SystemException { public OverflowException(string m) : base(m) { } }
    public interface IDisposable { void Dispose(); }
}
namespace System.Runtime.Serialization
{
    public class SerializationInfo { }
    public struct StreamingContext { }
}
namespace System.Collections.Generic
{
    public interface IEnumerable<T> { }
    public interface IEnumerator<T> { }
    public interface IReadOnlyList<T> { }
    public class List<T> { }
}
namespace Xunit
{
    public class XunitException : System.Exception { public XunitException(string m) : base(m) { } }
}
namespace Xunit.Abstractions
{
    public class ITestOutputHelper { public void WriteLine(string s) { } }
}
namespace UnityEngine
{
    public class MonoBehaviour { }
    public class Debug { public static void Log(string s) { } }
}
