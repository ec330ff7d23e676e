// what Sdirkl needs from its user: an exception class
#ifndef GenericException_h
#define GenericException_h
struct GenericException {
  template <class... A> GenericException(A...) {}
};
#endif
