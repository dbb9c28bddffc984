"""
A raster file as the lazy readers see it.  During the symbolic run the dataset
object is a stub that answers window requests the way GDAL does; the replay puts
the same content into a real in-memory GDAL dataset.
"""
import numpy as np
from vlib import symimg
from vlib.symimg import CH, ROW, LEVEL, Img, ceil_half


def value(level, y, x, c):
    """every stored pixel has a value of its own"""
    return level * LEVEL + c * CH + y * ROW + x + 1


def content(ctx, h, w, n, level, dtype='int32'):
    h, w = ceil_half(h, level), ceil_half(w, level)
    if ctx.symbolic:
        return Img((h, w, n), lambda y, x, k: value(level, y, x, k), dtype)
    y, x, k = np.mgrid[0:int(h), 0:int(w), 0:n]
    return value(level, y, x, k).astype(dtype)


class Band:
    """one channel of one stored level"""
    DataType = 5

    def __init__(self, ds, k, level):
        self.ds, self.k, self.level = ds, k, level
        img = ds.levels[level]
        self.YSize, self.XSize = img.shape[0], img.shape[1]

    def GetOverviewCount(self):
        return len(self.ds.levels) - 1 if self.level == 0 else 0

    def GetOverview(self, i):
        return Band(self.ds, self.k, i + 1) if 0 <= i < len(self.ds.levels) - 1 else None

    def GetNoDataValue(self):
        return self.ds.nodata[self.k]

    def GetColorTable(self):
        return None

    def GetDataset(self):
        return Dataset(self.ds.levels, self.ds.nodata, self.level)

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, buf_obj=None):
        xs = self.XSize if win_xsize is None else win_xsize
        ys = self.YSize if win_ysize is None else win_ysize
        if bool((xoff < 0) | (yoff < 0) | (xs < 0) | (ys < 0) | (xoff + xs > self.XSize) | (yoff + ys > self.YSize)):
            raise RuntimeError('Access window out of range in RasterIO()')
        part = self.ds.levels[self.level][yoff:yoff + ys, xoff:xoff + xs, self.k]
        if buf_obj is None:
            return part.copy()
        if not bool((buf_obj.shape[0] == ys) & (buf_obj.shape[1] == xs)):
            raise RuntimeError('the buffer would need resampling')
        buf_obj[...] = part
        return buf_obj


class Dataset:
    def __init__(self, levels, nodata, level=0):
        self.levels, self.nodata, self.level = levels, nodata, level
        self.RasterCount = levels[0].shape[2]
        self.RasterYSize, self.RasterXSize = levels[level].shape[0], levels[level].shape[1]

    def GetRasterBand(self, i):
        if not 1 <= i <= self.RasterCount:
            raise RuntimeError('Illegal band #%s' % i)
        return Band(self, i - 1, self.level)

    def GetSubDatasets(self):
        return []

    def GetMetadata(self, domain=''):
        return {'INTERLEAVE': 'PIXEL'} if domain == 'IMAGE_STRUCTURE' else {}

    def GetDescription(self):
        return ''

    def ReadAsArray(self, xoff=0, yoff=0, xsize=None, ysize=None, buf_obj=None, band_list=None, interleave='band'):
        band_list = band_list or range(1, self.RasterCount + 1)
        bands = [self.GetRasterBand(i) for i in band_list]
        if buf_obj is not None:
            for k, b in enumerate(bands):
                b.ReadAsArray(xoff, yoff, xsize, ysize, buf_obj=buf_obj[k])
            return buf_obj
        parts = [b.ReadAsArray(xoff, yoff, xsize, ysize) for b in bands]
        if len(parts) == 1:
            return parts[0]
        return np.stack(parts, axis=0 if interleave == 'band' else 2)


def gdal_dataset(levels, nodata):
    from osgeo import gdal
    gdal.UseExceptions()
    h, w, n = levels[0].shape
    ds = gdal.GetDriverByName('MEM').Create('', w, h, n, gdal.GDT_Int32)
    for k in range(n):
        if nodata[k] is not None:
            ds.GetRasterBand(k + 1).SetNoDataValue(float(nodata[k]))
        ds.GetRasterBand(k + 1).WriteArray(levels[0][:, :, k])
    if len(levels) > 1:
        ds.BuildOverviews('NEAREST', [1 << i for i in range(1, len(levels))])
        for k in range(n):
            for i, a in enumerate(levels[1:]):
                ov = ds.GetRasterBand(k + 1).GetOverview(i)
                if ov is None or (ov.YSize, ov.XSize) != a.shape[:2]:
                    # GDAL stores no two overviews of one size: use the stub
                    return Dataset(levels, nodata)
                ov.WriteArray(np.ascontiguousarray(a[:, :, k]))
    return ds


def dataset(ctx, h, w, n, nov, nodata):
    levels = [content(ctx, h, w, n, k) for k in range(nov + 1)]
    if ctx.symbolic:
        symimg.install()
        return Dataset(levels, nodata)
    return gdal_dataset(levels, nodata)


def expected(ctx, level, y, x, k, nodata, method):
    """the value a reader must give for a stored pixel"""
    v = value(level, y, x, k)
    if method is None or nodata[k] is None:
        return v
    if bool(v == nodata[k]):
        return np.ma.masked if method == 'ma' else symimg.MISSING
    return v


class RioStub:
    """what LazyRasterIOFrameFile uses of a rasterio dataset"""

    def __init__(self, img):
        self.img = img
        self.height, self.width, self.count = img.shape
        self.dtypes = ['int32'] * img.shape[2]

    def read(self, indexes, window):
        (y0, y1), (x0, x1) = window
        if bool((y0 < 0) | (x0 < 0) | (y1 > self.height) | (x1 > self.width) | (y1 < y0) | (x1 < x0)):
            raise ValueError('window out of range')
        for i in indexes:
            if not 1 <= i <= self.count:
                raise IndexError('band index %r out of range' % (i,))
        return self.img[y0:y1, x0:x1, [i - 1 for i in indexes]].transpose(2, 0, 1)


class SpyStub:
    """what LazySpectralFrameFile uses of a spectral file"""

    def __init__(self, img):
        self.img = img
        self.shape = img.shape
        self.dtype = np.dtype('int32')

    def read_subregion(self, row_bounds, col_bounds, bands=None):
        y0, y1 = row_bounds
        x0, x1 = col_bounds
        if bool((y0 < 0) | (x0 < 0) | (y1 > self.shape[0]) | (x1 > self.shape[1]) | (y1 < y0) | (x1 < x0)):
            raise ValueError('window out of range')
        bands = list(range(self.shape[2])) if bands is None else [int(b) for b in bands]
        for b in bands:
            if not 0 <= b < self.shape[2]:
                raise IndexError('band %r out of range' % (b,))
        return self.img[y0:y1, x0:x1, bands]


def rio_dataset(img):
    import warnings
    import rasterio
    from rasterio.io import MemoryFile
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mem = MemoryFile()
        h, w, n = img.shape
        with mem.open(driver='GTiff', height=h, width=w, count=n, dtype='int32') as dst:
            dst.write(np.ascontiguousarray(img.transpose(2, 0, 1)))
        ds = mem.open()
    ds._keep = mem
    return ds


def spy_dataset(img):
    import tempfile
    import spectral
    import shutil
    d = tempfile.mkdtemp(prefix='verif_spy')
    try:
        spectral.envi.save_image(d + '/a.hdr', img, dtype='int32', force=True, interleave='bsq')
        ds = spectral.envi.open(d + '/a.hdr')
        # the opened file stays readable after it is unlinked
        return ds
    finally:
        shutil.rmtree(d)
