"""Published chromaprint parameters (classifier.cpp / fingerprinter_configuration.cpp of chromaprint 1.5).
Row: (filter kind, y, height, width, t0, t1, t2)."""
TABLES = {
 1: [
  (0, 0, 3, 15, 2.10543, 2.45354, 2.69414),
  (1, 0, 4, 14, -0.345922, 0.0463746, 0.446251),
  (1, 4, 4, 11, -0.392132, 0.0291077, 0.443391),
  (3, 0, 4, 14, -0.192851, 0.00583535, 0.204053),
  (2, 8, 2, 4, -0.0771619, -0.00991999, 0.0575406),
  (5, 6, 2, 15, -0.710437, -0.518954, -0.330402),
  (1, 9, 2, 16, -0.353724, -0.0189719, 0.289768),
  (3, 4, 2, 10, -0.128418, -0.0285697, 0.0591791),
  (3, 9, 2, 16, -0.139052, -0.0228468, 0.0879723),
  (2, 1, 3, 6, -0.133562, 0.00669205, 0.155012),
  (3, 3, 6, 2, -0.0267, 0.00804829, 0.0459773),
  (2, 8, 1, 10, -0.0972417, 0.0152227, 0.129003),
  (3, 4, 4, 14, -0.141434, 0.00374515, 0.149935),
  (5, 4, 2, 15, -0.64035, -0.466999, -0.285493),
  (5, 9, 2, 3, -0.322792, -0.254258, -0.174278),
  (2, 1, 8, 4, -0.0741375, -0.00590933, 0.0600357),
 ],
 2: [
  (0, 4, 3, 15, 1.98215, 2.35817, 2.63523),
  (4, 4, 6, 15, -1.03809, -0.651211, -0.282167),
  (1, 0, 4, 16, -0.298702, 0.119262, 0.558497),
  (3, 8, 2, 12, -0.105439, 0.0153946, 0.135898),
  (3, 4, 4, 8, -0.142891, 0.0258736, 0.200632),
  (4, 0, 3, 5, -0.826319, -0.590612, -0.368214),
  (1, 2, 2, 9, -0.557409, -0.233035, 0.0534525),
  (2, 7, 3, 4, -0.0646826, 0.00620476, 0.0784847),
  (2, 6, 2, 16, -0.192387, -0.029699, 0.215855),
  (2, 1, 3, 2, -0.0397818, -0.00568076, 0.0292026),
  (5, 10, 1, 15, -0.53823, -0.369934, -0.190235),
  (3, 6, 2, 10, -0.124877, 0.0296483, 0.139239),
  (2, 1, 1, 14, -0.101475, 0.0225617, 0.231971),
  (3, 5, 6, 4, -0.0799915, -0.00729616, 0.063262),
  (1, 9, 2, 12, -0.272556, 0.019424, 0.302559),
  (3, 4, 2, 14, -0.164292, -0.0321188, 0.0846339),
 ],
 3: [
  (0, 4, 3, 15, 1.98215, 2.35817, 2.63523),
  (4, 4, 6, 15, -1.03809, -0.651211, -0.282167),
  (1, 0, 4, 16, -0.298702, 0.119262, 0.558497),
  (3, 8, 2, 12, -0.105439, 0.0153946, 0.135898),
  (3, 4, 4, 8, -0.142891, 0.0258736, 0.200632),
  (4, 0, 3, 5, -0.826319, -0.590612, -0.368214),
  (1, 2, 2, 9, -0.557409, -0.233035, 0.0534525),
  (2, 7, 3, 4, -0.0646826, 0.00620476, 0.0784847),
  (2, 6, 2, 16, -0.192387, -0.029699, 0.215855),
  (2, 1, 3, 2, -0.0397818, -0.00568076, 0.0292026),
  (5, 10, 1, 15, -0.53823, -0.369934, -0.190235),
  (3, 6, 2, 10, -0.124877, 0.0296483, 0.139239),
  (2, 1, 1, 14, -0.101475, 0.0225617, 0.231971),
  (3, 5, 6, 4, -0.0799915, -0.00729616, 0.063262),
  (1, 9, 2, 12, -0.272556, 0.019424, 0.302559),
  (3, 4, 2, 14, -0.164292, -0.0321188, 0.0846339),
 ],
}
COEFS = [0.25, 0.75, 1.0, 0.75, 0.25]
PRESETS = {
    1: dict(id=0, table=1, frame=4096, overlap=2731, interpolate=False, silence=None),
    2: dict(id=1, table=2, frame=4096, overlap=2731, interpolate=False, silence=None),
    3: dict(id=2, table=3, frame=4096, overlap=2731, interpolate=True, silence=None),
    4: dict(id=3, table=2, frame=4096, overlap=2731, interpolate=False, silence=50),
    5: dict(id=4, table=2, frame=2048, overlap=1024, interpolate=False, silence=None),
}
MIN_FREQ, MAX_FREQ, RATE = 28, 3520, 11025
