"""Stand-in for the part of scikit-image the code uses."""
from skimage import segmentation
