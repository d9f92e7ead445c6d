SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split("-")[0], edits=edits,
                      needs=needs, breaks=breaks, demo=demo))


P = "pdr/pdr.py"
B = "pdr/browsify.py"
IM = '''
from mini import *
import csv
from PIL import Image


def image(name, arr, more="", missing=None):
    arr = np.asarray(arr, ">i4")
    put("x.img", arr.tobytes())
    b = arr.shape[0] if arr.ndim == 3 else 0
    label("^IMAGE = \\"x.img\\"\\nOBJECT = IMAGE\\nLINES = %d\\n"
          "LINE_SAMPLES = %d\\n%sSAMPLE_TYPE = MSB_INTEGER\\n"
          "SAMPLE_BITS = 32\\n%s\\nEND_OBJECT = IMAGE" % (
              arr.shape[-2:] + ("BANDS = %d\\nBAND_STORAGE_TYPE = "
                                "BAND_SEQUENTIAL\\n" % b if b else "", more)),
          name)
    return arr


def pic(name):
    return np.asarray(Image.open(os.path.join(DIR, name))).astype(int)

'''
seed("C25-both-in-place", [(P, '''                    dump_it(
                        self.get_scaled(obj, float_dtype=fdt),
                        outfile + "_scaled",
                        purge=False,
                    )
                    dump_it(self[obj], outfile + "_unscaled")
''', '''                    dump_it(
                        self.get_scaled(obj, inplace=purge, float_dtype=fdt),
                        outfile + "_scaled",
                        purge=False,
                    )
                    dump_it(self[obj], outfile + "_unscaled")
''')], "scaled='both' with purge, an integer image with a negative factor",
     "the unscaled picture shows the scaled image", IM + '''
image("x.lbl", [[0, 10], [20, 30]], "SCALING_FACTOR = -1")
d = read("x.lbl")
d.load("IMAGE")
d.dump_browse(outpath=DIR, scaled="both", purge=True, image_clip=0,
              image_format="png")
a, b = pic("x_IMAGE_scaled.png"), pic("x_IMAGE_unscaled.png")
assert a[0, 0] == 255 and a[1, 1] == 0, a
assert b[0, 0] == 0 and b[1, 1] == 255, b
''')
seed("C25-first-dot", [(P, '''            prefix = Path(self.filename).stem
''', '''            prefix = Path(self.filename).name.split(".")[0]
''')], "a file name with several dots",
     "browse products are named after part of the file name, so that those of "
     "two products can replace each other", IM + '''
image("obs.v2.lbl", [[0, 10], [20, 30]])
d = read("obs.v2.lbl")
d.load("IMAGE")
d.dump_browse(outpath=DIR)
assert "obs.v2_IMAGE.jpg" in os.listdir(DIR), os.listdir(DIR)
''')
seed("C25-burst-last", [(B, '''            f"{outbase}_{ix}",
''', '''            f"{outbase}_{ix % 10}",
''')], "a burst of more than ten bands",
     "pictures of later bands replace those of earlier ones", IM + '''
image("x.lbl", np.arange(48).reshape(12, 2, 2))
d = read("x.lbl")
d.load("IMAGE")
d.dump_browse(outpath=DIR, band_ix="burst")
got = [f for f in os.listdir(DIR) if f.endswith(".jpg")]
assert len(got) == 12, got
''')
seed("C25-small-table", [(B, '''        if len(obj) == 1:
            # noinspection PyTypeChecker
            obj.T.to_csv(outbase + ".csv"),
''', '''        if len(obj) < len(obj.columns):
            # noinspection PyTypeChecker
            obj.T.to_csv(outbase + ".csv"),
''')], "a table with more columns than rows, and several rows",
     "its CSV has columns as rows", '''
from mini import *
import csv
put("x.tab", "".join("%4d%4d%4d\\r\\n" % (i, i + 1, i + 2) for i in (1, 5)))
cols = "".join("OBJECT = COLUMN\\nNAME = C%d\\nDATA_TYPE = ASCII_INTEGER\\n"
               "START_BYTE = %d\\nBYTES = 4\\nEND_OBJECT = COLUMN\\n" % (
                   i, 1 + 4 * i) for i in range(3))
label("RECORD_TYPE = FIXED_LENGTH\\nRECORD_BYTES = 14\\n^TABLE = \\"x.tab\\"\\n"
      "OBJECT = TABLE\\nINTERCHANGE_FORMAT = ASCII\\nROWS = 2\\nROW_BYTES = 14"
      "\\nCOLUMNS = 3\\n" + cols + "END_OBJECT = TABLE")
d = read()
d.load("TABLE")
d.dump_browse(outpath=DIR)
with open(os.path.join(DIR, "x_TABLE.csv"), newline="") as f:
    r = list(csv.reader(f))
assert r[0][1:] == ["C0", "C1", "C2"] and r[2][1:] == ["5", "6", "7"], r
''')
seed("C25-show-in-place", [(P, '''            obj = self.get_scaled(object_name)
        else:
            obj = self[object_name]
''', '''            obj = self.get_scaled(object_name, inplace=True)
        else:
            obj = self[object_name]
''')], "an integer image with an integer scaling factor, shown",
     "showing it changes the loaded object", IM + '''
a = image("x.lbl", [[0, 10], [20, 30]], "SCALING_FACTOR = 2")
d = read("x.lbl")
same(d["IMAGE"], a)
d.show("IMAGE")
same(d["IMAGE"], a)
''')
seed("C25-single-line", [(B, '''        if len(obj.shape) == 1:
            pd.DataFrame(obj).to_csv(outbase + ".csv", index=False)
''', '''        if 1 in obj.shape or len(obj.shape) == 1:
            pd.DataFrame(obj.ravel()).to_csv(outbase + ".csv", index=False)
''')], "an image of a single line",
     "it is written as a CSV file, not as a picture", IM + '''
image("x.lbl", [[0, 10, 20, 30]])
d = read("x.lbl")
d.load("IMAGE")
d.dump_browse(outpath=DIR)
assert "x_IMAGE.jpg" in os.listdir(DIR), os.listdir(DIR)
''')
