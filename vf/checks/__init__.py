REGISTRY = {
    "K01": ("kinematics", "k01"),
    "K02": ("kinematics", "k02"),
    "K03": ("kinematics", "k03"),
    "K04": ("kinematics", "k04"),
    "K06": ("kinematics", "k06"), "K05": ("kinematics", "k05"),
    "B01": ("builder", "b01"),
    "B02": ("builder", "b02"),
    "B03": ("builder", "b03"),
    "B04": ("builder", "b04"),
    "B05": ("builder", "b05"),
    "B06": ("builder", "b06"),
    "B07": ("compiled", "b07"),
    "B08": ("builder", "b08"),
    "B09": ("builder", "b09"),
    "B10": ("builder", "b10"),
    "D01": ("dynamics", "d01"),
    "D02": ("dynamics", "d02"),
    "D03": ("dynamics", "d03"),
    "B11": ("discrete", "b11"), "D05": ("discrete", "d05"),
    "D04": ("dynamics", "d04"),
    "S01": ("discrete", "s01"),
    "S02": ("discrete", "s02"),
    "S03": ("discrete", "s03"),
    "E01": ("discrete", "e01"),
    "E02": ("discrete", "e02"),
    "A01": ("discrete", "a01"),
    "A02": ("discrete", "a02"),
    "A03": ("discrete", "a03"),
    "A04": ("discrete", "a04"),
    "G01": ("serial", "g01"),
    "G02": ("serial", "g02"),
    "G03": ("serial", "g03"), "G04": ("serial", "g04"),
    "H01": ("render", "h01"),
    "C01": ("compiled", "c01"),
    "C02": ("compiled", "c02"),
}
