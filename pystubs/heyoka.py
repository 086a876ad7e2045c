# Stand-in for heyoka's Python module (not installed here): pykep imports it only to have the conversions of its types registered.
