# Stand-in for sgp4 (not installed here): a satellite on a known curve, in km and km/s, over the two parts of a Julian date.
