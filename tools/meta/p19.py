PROP = dict(
    id='P19', title='Saved image files hold the images of the document',
    statement='''Every image of a page, inline or an XObject, at any place and scale, in any form, filtered and encrypted in any supported
    way, is an LTImage whose srcsize is its width and height in samples, and save_image writes it to the file whose path it returns:
    DCT data unchanged to a .jpg (turned to RGB when DeviceCMYK), image masks, other images of one component of 1 bit, 8 bit DeviceGray and 8 bit DeviceRGB to a .bmp
    with the samples as pixels, other images to an .img file of the decoded samples. Images saved without a file name do not overwrite each other.''',
    quantifier=dict(over=['inputs', 'histories'], text='all images and places to paint them, all filter chains and encryptions, all sequences of images saved from a document'),
    why_tests_cant='The test saves the images of two files without looking at what was written; sizes, row padding, sample layout, filters and name reuse need many images and several per document.',
    anchors=dict(files=['pdfmajor/interpreter/commands/state/layout/LTImage.py', 'pdfmajor/BMPWriter/__init__.py'],
                 mechanism=[dict(name='choice of format', where='pdfmajor/interpreter/commands/state/layout/LTImage.py:LTImage.save_image'),
                            dict(name='BMP files', where='pdfmajor/BMPWriter/__init__.py:BMPWriter'),
                            dict(name='names', where='pdfmajor/interpreter/commands/state/layout/__init__.py:make_image')],
                 observe_at='the files save_image writes, read back'))
CHECK = dict(technique='property-based round trip: generated documents with images of every kind, saved and read back by Pillow and byte comparison against the samples they were built from',
             note='images up to 65 by 48 samples; Decode arrays are not generated, nor 1-bit images with several components or Indexed colours, nor JPX and JBIG2')
