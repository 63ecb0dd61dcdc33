{536870911u, "bf7f45d9df691bd277948d7f124b87a9f76e16ddb5d8fb25a49df939798f0a01", true},
{536870912u, "9acca8e8c22201155389f65abbf6bc9723edc7384ead80503839f49dcc56d767", true},
{536870982u, "6de2e09468e74c8ae11ce6c757ffb4dc1d3d3bb891c5cbd6eb9c1334b0e25686", false},
{4294967301u, "709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5", true},
