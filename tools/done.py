DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 R01 R02 R03 R04 R05 R06 R07 R08 D01 D02 D03 D04 D05 D06 D07 D08 X01 X02 X03 X04 X05 X06 X07 X08 X09 X10 X11".split()
HOOK = ["e67cd94860830fb30e3c3b8f066932fd821c8864"]
