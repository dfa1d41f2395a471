// Stand-in for ecl_errors (absent here).
#ifndef VERIF_SHIM_ECL_ERRORS_HANDLERS_HPP_
#define VERIF_SHIM_ECL_ERRORS_HANDLERS_HPP_
namespace ecl {
enum ErrorFlag {
  NoError = 0, UnknownError, OutOfRangeError, ConstructorError, DestructorError, ConversionError,
  ConfigurationError, InvalidInputError, InvalidObjectError, InvalidArgError, NotFoundError,
  NotInitialisedError, OpenError, CloseError, ReadError, WriteError, PermissionsError,
  OutOfResourcesError, InterruptedError, SystemFailureError, MemoryError, UsageError, PosixError,
  BusyError, BlockingError, NotSupportedError, ArgNotSupportedError, ConnectionError,
  ConnectionRefusedError, TimeOutError, IsLockedError, RaiiError, ErrorFlagCount
};
class Error {
public:
  Error(const ErrorFlag& flag = UnknownError) : error_flag(flag) {}
  virtual ~Error() {}
  Error(const Error&) = default;
  Error& operator=(const Error&) = default;
  const ErrorFlag& flag() const { return error_flag; }
  virtual const char* what() const {
    static const char* const names[] = {
      "No error.", "Unknown error.", "Out of range error.", "Constructor error.", "Destructor error.",
      "Conversion error.", "Configuration error.", "Invalid input error.", "Invalid object error.",
      "Invalid argument error.", "Not found error.", "Not initialised error.", "Open error.",
      "Close error.", "Read error.", "Write error.", "Permissions error.", "Out of resources error.",
      "Interrupted error.", "System failure error.", "Memory error.", "Usage error.", "Posix error.",
      "Busy error.", "Blocking error.", "Not supported error.", "Arg not supported error.",
      "Connection error.", "Connection refused error.", "Time out error.", "Is locked error.",
      "Raii error." };
    return (error_flag >= 0 && error_flag < ErrorFlagCount) ? names[error_flag] : "Unrecognised flag.";
  }
protected:
  ErrorFlag error_flag;
};
}
#endif
