"""Stand-in for the client side of twirp 0.0.3, written from its documented behaviour; the
HTTP request itself is made by the checker."""
