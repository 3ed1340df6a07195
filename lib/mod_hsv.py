CIRC = {"to_hsv": {0: 360}, "to_hsv_atan": {0: 360}}
