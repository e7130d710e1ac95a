"""Stand-in for the part of scikit-learn the code uses."""
from sklearn import neighbors
from sklearn import preprocessing
from sklearn import decomposition
from sklearn import pipeline
